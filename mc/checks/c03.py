"""The Riemannian metric and its norm."""
import numpy as np

from .. import geo, zoo
from ..geo import lin, scalar

ID = "C03"
LEVEL = "model_checking"
RULE = (
    "state = reachable point; transitions = inner_product and norm calls on "
    "every pair from a basis of the reference tangent space plus generic and "
    "scaled vectors (the bilinear form is determined on a whole basis), "
    "compared with the documented metric; non-trivial = distinct (point, pair)"
)
ASSUMPTIONS = geo.ASSUME


def cases(tier):
    return geo.cases(tier)


def run_case(case, rec):
    inst = zoo.by_name(case["instance"])
    m, n = inst.get(), inst.name
    deep = case["tier"] == "thorough"
    for history, x in zoo.reachable(inst, rec, 1, extremes=True):
        rec.trace()
        vs = [(f"b{i}", b) for i, b in enumerate(
            inst.basis(x)[: None if deep else 8])]
        vs += inst.tangents(x, generic=2, maxbasis=0)
        if not vs:
            continue
        for s in (1e-8, 1e-3, 1e3):
            vs.append((f"{s:g}*last", s * vs[-1][1]))
        tol = 1e-9
        sl = getattr(inst, "sl", None)
        if isinstance(sl, zoo.PDS):
            tol *= max(np.linalg.cond(p) for p in inst.parts(x))
        norms = {}
        for i, (la, a) in enumerate(vs):
            na = m.norm(x, a)
            rec.step()
            ref = inst.norm(x, a)
            norms[la] = ref
            rec.check(
                scalar(na) and abs(na - ref) <= tol * ref,
                f"{n}/norm", lambda: f"{history} {la}: norm {na!r}, reference "
                f"{ref}", nontrivial=(history, la))
            for j, (lb, b) in enumerate(vs):
                g = m.inner_product(x, a, b)
                rec.step()
                ref = inst.inner(x, a, b)
                scale = inst.norm(x, a) * inst.norm(x, b)
                rec.check(
                    scalar(g) and abs(g - ref) <= tol * scale,
                    f"{n}/inner_product",
                    lambda: f"{history} <{la},{lb}> = {g!r}, reference {ref}",
                    nontrivial=(history, la, lb))
        # bilinearity and symmetry without the reference
        (la, a), (lb, b) = vs[0], vs[-4]
        c = lin(2.0, a, -0.5, b)
        lhs = m.inner_product(x, c, b)
        rhs = 2.0 * m.inner_product(x, a, b) - 0.5 * m.inner_product(x, b, b)
        rec.check(abs(lhs - rhs) <= tol * max(1, abs(rhs)) * 10,
                  f"{n}/inner_product/linear", lambda: f"{history} {lhs} {rhs}",
                  nontrivial=history)
        lhs, rhs = m.inner_product(x, b, c), m.inner_product(x, c, b)
        rec.check(abs(lhs - rhs) <= tol * max(1, abs(rhs)) * 10,
                  f"{n}/inner_product/symmetric",
                  lambda: f"{history} {lhs} {rhs}", nontrivial=history)
        # passing the very same object twice is the squared norm
        g = m.inner_product(x, b, b)
        g2 = m.inner_product(x, b, geo.copy(b))
        rec.check(scalar(g) and abs(g - g2) <= tol * max(1, abs(g)) and g > 0,
                  f"{n}/inner_product/same-object", lambda: f"{history} {g} {g2}",
                  nontrivial=history)
        z = m.zero_vector(x)
        rec.check(m.norm(x, z) == 0 and m.inner_product(x, z, b) == 0,
                  f"{n}/zero", lambda: f"{history}", nontrivial=history)
        rec.step(8)
    rec.sample({"instance": n, "history": list(history)})
