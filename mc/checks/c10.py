"""Euclidean Hessians become Riemannian Hessians."""
import numpy as np

from .. import calculus, geo, zoo
from ..geo import lin

ID = "C10"
LEVEL = "model_checking"
RULE = (
    "state = reachable point; transitions = euclidean_to_riemannian_hessian on "
    "every tangent basis vector (whole basis: the operator is determined) and "
    "generic directions for costs with full ambient gradient and Hessian; "
    "matrix symmetry over all basis pairs, quadratic form against second "
    "differences along independently computed geodesics"
)
ASSUMPTIONS = geo.ASSUME


def cases(tier):
    return geo.cases(tier, lacks=("hessian",))


def run_case(case, rec):
    inst = zoo.by_name(case["instance"])
    m, n = inst.get(), inst.name
    deep = case["tier"] == "thorough"
    cost = calculus.cost_for(inst)
    for history, x in zoo.reachable(inst, rec, 2 if deep else 1, extremes=True,
                                    ops=("retraction",)):
        rec.trace()
        e = cost.grad(x)
        vs = [b / inst.norm(x, b) for b in inst.basis(x)]
        nb = len(vs)
        labels = [f"b{i}" for i in range(nb)]
        for lv, v in inst.tangents(x, generic=2, maxbasis=0):
            vs.append(v)
            labels.append(lv)

        def hess(v):
            rec.step()
            return m.euclidean_to_riemannian_hessian(
                x, e, cost.hess(x, inst.embed(x, v)), v)

        hv = [hess(v) for v in vs]
        scale = max(1.0, zoo.nrm(e), max(
            (zoo.nrm(h) for h in hv if zoo.finite(h)), default=1.0))
        size = max(1, zoo.nrm(x)) ** 2
        good = True
        for lv, v, h in zip(labels, vs, hv):
            good &= rec.check(
                inst.is_tangent(x, h, 1e-7 * max(1, scale / max(
                    1e-9, zoo.nrm(h)))),
                f"{n}/hessian/tangent", lambda: f"{history} {lv}: {h!r}",
                nontrivial=(history, lv))
        if not good:
            continue
        mat = np.array([[inst.inner(x, h, v) for v in vs] for h in hv])
        big = max(1.0, np.abs(mat).max())
        asym = np.abs(mat - mat.T)
        i, j = np.unravel_index(asym.argmax(), asym.shape)
        rec.check(
            asym.max() <= 1e-8 * big * size, f"{n}/hessian/symmetric",
            lambda: f"{history}: <H {labels[i]},{labels[j]}> = {mat[i, j]} "
            f"but <H {labels[j]},{labels[i]}> = {mat[j, i]}",
            nontrivial=history)
        rec.evaluations += mat.size
        for i in (0, nb // 2, len(vs) - 1):
            got = hess(lin(3.0, vs[i], -0.5, vs[-1]))
            want = lin(3.0, hv[i], -0.5, hv[-1])
            g = zoo.gap(got, want)
            rec.check(g <= 1e-9 * scale * size, f"{n}/hessian/linear",
                      lambda: f"{history} {labels[i]}: {g:.3e}",
                      nontrivial=(history, i))
            for s in (1e-12, 1e-6, 1e6):
                # in the direction, and in the cost
                got = hess(s * vs[i])
                g = zoo.gap(got, s * hv[i])
                eh = cost.hess(x, inst.embed(x, vs[i]))
                got = m.euclidean_to_riemannian_hessian(
                    x, lin(s, e, 0.0, e), lin(s, eh, 0.0, eh), vs[i])
                rec.step()
                g = max(g, zoo.gap(got, s * hv[i]))
                rec.check(g <= 1e-9 * scale * size * s,
                          f"{n}/hessian/homogeneous",
                          lambda: f"{history} {labels[i]} scaled by {s:g}: "
                          f"{g:.3e}", nontrivial=(history, i, s))
        f0 = cost.cost(x)
        for i, (lv, v) in enumerate(zip(labels, vs)):

            def second(h):
                return (cost.cost(inst.geodesic(x, h * v)) - 2 * f0
                        + cost.cost(inst.geodesic(x, -h * v))) / h**2

            h = 2e-3
            d = (4 * second(h / 2) - second(h)) / 3
            tol = 1e-5 * max(big, 1.0) + 1e-15 * abs(f0) / h**2 * 1e2
            rec.check(
                abs(d - mat[i, i]) <= tol, f"{n}/hessian/second-derivative",
                lambda: f"{history} {lv}: <Hv,v> = {mat[i, i]}, second "
                f"derivative along the geodesic {d}", nontrivial=(history, lv))
    rec.sample({"instance": n, "history": list(history)})
