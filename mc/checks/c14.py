"""Independence of the representative of a point."""
import numpy as np

from .. import geo, zoo
from .c05 import inside

ID = "C14"
LEVEL = "model_checking"
RULE = (
    "state = (point, representative) for quotient and factored manifolds; "
    "transitions = every operation at the representative with tangent vectors "
    "carried along (all basis vectors and generic ones, all point pairs)"
)
ASSUMPTIONS = geo.ASSUME


def cases(tier):
    def want(inst):
        return bool(inst.representatives(inst.points(generic=1)[-1][1]))

    out = []
    for name in zoo.names(tier):
        inst = zoo.by_name(name)
        if inst.kind != "product" and want(inst):
            out.append({"id": name, "instance": name, "tier": tier})
    return out


def run_case(case, rec):
    inst = zoo.by_name(case["instance"])
    m, n = inst.get(), inst.name
    deep = case["tier"] == "thorough"
    pts = inst.points(generic=3 if deep else 2)
    if inst.kind != "fixedrank":
        pts += inst.extremes()
    from .. import calculus

    cost = calculus.cost_for(inst)
    for lx, x in pts:
        size = max(1, zoo.nrm(x))
        reps = inst.representatives(x)
        vs = [(f"b{i}", b) for i, b in enumerate(inst.basis(x))]
        vs += inst.tangents(x, generic=2, maxbasis=0)
        for rl, xr, carry in reps:
            w0 = (lx, rl)
            rec.state((n, w0))
            rec.trace()

            def agree(got, want, key, what, tol=1e-8):
                a, b = zoo.flat(got), zoo.flat(want)
                rec.check(
                    a.shape == b.shape and np.linalg.norm(a - b) <= tol
                    * size**2 * max(1, np.linalg.norm(b)),
                    f"{n}/{key}", lambda: f"{w0} {what}: {got!r} at the "
                    f"other representative, {want!r} expected",
                    nontrivial=(w0, what))

            for i, (lv, v) in enumerate(vs):
                vr = carry(v)
                lw, w = vs[(i + 1) % len(vs)]
                rec.step(8)
                agree(m.inner_product(xr, vr, carry(w)),
                      m.inner_product(x, v, w), "inner_product", lv)
                agree(m.norm(xr, vr), m.norm(x, v), "norm", lv)
                for s in (0.5, 1.7):
                    agree(inst.invariant(m.retraction(xr, s * vr)),
                          inst.invariant(m.retraction(x, s * v)),
                          "retraction", (lv, s))
                    if "exp" not in inst.lacks:
                        agree(inst.invariant(m.exp(xr, s * vr)),
                              inst.invariant(m.exp(x, s * v)), "exp", (lv, s))
                agree(m.to_tangent_space(xr, vr),
                      carry(m.to_tangent_space(x, v)), "to_tangent_space", lv)
                if "hessian" not in inst.lacks:
                    a = m.euclidean_to_riemannian_hessian(
                        xr, cost.grad(xr), cost.hess(xr, vr), vr)
                    b = m.euclidean_to_riemannian_hessian(
                        x, cost.grad(x), cost.hess(x, v), v)
                    agree(a, carry(b), "hessian", lv)
            agree(m.euclidean_to_riemannian_gradient(xr, cost.grad(xr)),
                  carry(m.euclidean_to_riemannian_gradient(x, cost.grad(x))),
                  "gradient", "cost")
            for la, z in inst.ambient(x, 2):
                zr = z if inst.kind == "fixedrank" else carry(z)
                agree(m.projection(xr, zr), carry(m.projection(x, z)),
                      "projection", la)
            near = []
            for lv, v in inst.tangents(x, generic=1, maxbasis=1):
                near.append((f"near-{lv}", m.retraction(x, 0.3 * v)))
            for ly, y in pts + near:
                rec.step(4)
                if "dist" not in inst.lacks:
                    agree(m.dist(xr, y), m.dist(x, y), "dist", ly, 1e-7)
                    agree(m.dist(y, xr), m.dist(x, y), "dist", ("swap", ly),
                          1e-7)
                if "log" not in inst.lacks and inside(inst, x, y) \
                        and ly != lx:
                    a = m.log(x, y)
                    agree(m.log(xr, y), carry(a), "log/base", ly, 1e-7)
                    for ry, yr, _ in inst.representatives(y):
                        agree(m.log(x, yr), a, "log/target", (ly, ry), 1e-7)
                for ry, yr, ycarry in inst.representatives(y):
                    lv, v = vs[-1]
                    if inst.kind == "fixedrank":
                        agree(m.transport(xr, yr, carry(v)),
                              ycarry(m.transport(x, y, v)), "transport",
                              (ly, ry))
                    elif ry == rl:
                        # both points change by the same group element
                        agree(m.transport(xr, yr, carry(v)),
                              ycarry(m.transport(x, y, v)), "transport",
                              (ly, ry))
    rec.sample({"instance": n, "representatives": [r[0] for r in reps]})
