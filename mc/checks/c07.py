"""Retractions: base point, first order, and second order where promised."""
import numpy as np

from .. import geo, zoo

ID = "C07"
LEVEL = "model_checking"
RULE = (
    "state = reachable point; transitions = retraction calls along every "
    "element of the tangent basis (all of it, at every point) and generic "
    "directions at step sizes 0, 1e-7..1e-3 and both signs; first differences "
    "against the tangent vector, second differences against the geodesic"
)
ASSUMPTIONS = geo.ASSUME


def cases(tier):
    return geo.cases(tier)


def _second_order(inst):
    if inst.kind == "product":
        return all(_second_order(f) for f in inst.factors)
    return inst.second_order


def _geodesic(inst):
    if inst.kind == "product":
        return all(_geodesic(f) for f in inst.factors)
    return inst.kind != "fixedrank"


def run_case(case, rec):
    inst = zoo.by_name(case["instance"])
    m, n = inst.get(), inst.name
    deep = case["tier"] == "thorough"
    second, geodesic = _second_order(inst), _geodesic(inst)
    for history, x in zoo.reachable(
            inst, rec, 2 if deep else 1, extremes=True):
        rec.trace()
        if zoo.curved(inst, x):
            continue
        inv = zoo.flat(inst.invariant(x))
        size = max(1, np.linalg.norm(inv))
        y = m.retraction(x, m.zero_vector(x))
        rec.step()
        rec.check(inst.same(x, y, 1e-12), f"{n}/retraction/zero",
                  lambda: f"{history}: retraction(x,0) != x",
                  nontrivial=history)
        vs = [(f"b{i}", b / inst.norm(x, b))
              for i, b in enumerate(inst.basis(x))]
        vs += inst.tangents(x, generic=2, maxbasis=0)
        for label, v in vs:
            want = zoo.flat(inst.dinv(x, v))
            scale = max(np.linalg.norm(want), 1e-3)
            h = 1e-5

            def at(t):
                rec.step()
                y = m.retraction(x, t * v)
                return zoo.flat(inst.invariant(y))

            plus, minus = at(h), at(-h)
            d = (plus - minus) / (2 * h)
            err = np.linalg.norm(d - want)
            rec.check(
                err <= 1e-6 * scale + 1e-10 * size / h * 1e-1,
                f"{n}/retraction/first-order",
                lambda: f"{history} {label}: derivative is off by {err:.3e} "
                f"(|v|={scale:.3e})", nontrivial=(history, label))
            # one-sided, so that even a non-differentiable kink is seen
            one = np.linalg.norm((plus - inv) / h - want)
            rec.check(one <= 1e-3 * max(scale, size),
                      f"{n}/retraction/one-sided",
                      lambda: f"{history} {label}: {one:.3e}",
                      nontrivial=(history, label))
            if not second:
                continue
            t = 1e-3
            if geodesic:
                y = zoo.flat(inst.invariant(m.retraction(x, t * v)))
                z = zoo.flat(inst.invariant(inst.geodesic(x, t * v)))
                rec.step()
                err = np.linalg.norm(y - z) / t**2
                rec.check(
                    err <= 0.02 * max(scale, scale**2, size) + 1e-9 * size,
                    f"{n}/retraction/second-order",
                    lambda: f"{history} {label}: deviates from the geodesic "
                    f"by {err:.3e} t^2", nontrivial=(history, label))
            elif inst.kind == "fixedrank":
                acc = (at(t) - 2 * inv + at(-t)) / t**2
                basis = [zoo.flat(inst.embed(x, b)) for b in inst.basis(x)]
                comp = np.array([np.dot(acc, b) for b in basis])
                rec.check(np.linalg.norm(comp) <= 1e-2 * size,
                          f"{n}/retraction/second-order",
                          lambda: f"{history} {label}: tangential "
                          f"acceleration {np.linalg.norm(comp):.3e}",
                          nontrivial=(history, label))
    rec.sample({"instance": n, "history": list(history),
                "directions": [v[0] for v in vs[:8]]})
