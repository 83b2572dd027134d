"""The exponential map follows geodesics."""
import warnings

import numpy as np

from .. import geo, zoo
from .c05 import conditioning

ID = "C04"
LEVEL = "model_checking"
RULE = (
    "state = reachable point; transitions = exp calls along every tangent "
    "direction of the alphabet at magnitudes 0, 1e-12 ... the domain limit and "
    "both signs; each image is compared with an independently computed "
    "geodesic, and composed moves exp(exp(x,sv),tv') with exp(x,(s+t)v)"
)
ASSUMPTIONS = geo.ASSUME


def cases(tier):
    return geo.cases(tier, lacks=("exp",))


def _has_reference(inst):
    if inst.kind == "product":
        return all(_has_reference(f) for f in inst.factors)
    return inst.sl.full_exp


def run_case(case, rec):
    inst = zoo.by_name(case["instance"])
    m, n = inst.get(), inst.name
    deep = case["tier"] == "thorough"
    ref_ok = _has_reference(inst)
    for history, x in zoo.reachable(inst, rec, 2 if deep else 1, extremes=True,
                                    ops=("retraction",)):
        rec.trace()
        rec.step()
        extreme = "extreme" in history[0]
        tol = 1e-8 * (conditioning(inst, x) ** 0.5 if extreme else 1)
        y = m.exp(x, m.zero_vector(x))
        zero = 1e-12 + 1e-14 * (conditioning(inst, x) if extreme else 0)
        rec.check(inst.same(x, y, zero), f"{n}/exp/zero",
                  lambda: f"{history}: exp(x,0) != x", nontrivial=history)
        tv = inst.tangents(x, generic=2, maxbasis=6 if deep else 3)
        for label, v in tv:
            for s in (1e-12, 1e-8, 1e-4, 0.1, 1.0, -1.0, np.pi / 2, 2.5, 3.2,
                      7.0):
                if "Poincare" in n and abs(s) > 3:
                    continue
                y = m.exp(x, s * v)
                rec.step()
                if not ref_ok:
                    continue
                z = inst.exp(x, s * v)
                rec.check(
                    inst.same(y, z, tol), f"{n}/exp/geodesic",
                    lambda: f"{history} exp({s:g}*{label}) differs from the "
                    f"geodesic: {y!r} vs {z!r}", nontrivial=(history, label, s))
                if abs(s) == 1e-4:
                    # resolve the displacement itself, not just the point
                    a, b = inst.invariant(y), inst.invariant(x)
                    d = geo.lin(1.0, a, -1.0, b)
                    w = geo.lin(1.0, inst.invariant(z), -1.0, b)
                    rec.check(zoo.gap(d, w) <= 1e2 * tol * zoo.nrm(w)
                              + 1e-4 * tol * max(1, zoo.nrm(b)),
                              f"{n}/exp/displacement",
                              lambda: f"{history} {label}: {zoo.gap(d, w)}",
                              nontrivial=(history, label, s))
            if ref_ok and "Poincare" not in n:
                # flow property on the real code alone
                y = m.exp(x, 0.7 * v)
                rep = m.exp(x, 1.2 * v)
                h = 1e-5
                w = geo.lin(0.5 / h, inst.exp(x, (0.7 + h) * v),
                            -0.5 / h, inst.exp(x, (0.7 - h) * v))
                if inst.kind == "array" and inst.sl.identity_embed \
                        and not isinstance(inst.sl, (
                            zoo.GrassmannS, zoo.PSDS)):
                    w = m.to_tangent_space(y, w)
                    z = m.exp(y, 0.5 * w)
                    rec.step(4)
                    rec.check(inst.same(z, rep, 1e-6), f"{n}/exp/flow",
                              lambda: f"{history} {label}",
                              nontrivial=(history, label))
        if not ref_ok and inst.kind == "array":
            v = tv[-1][1]
            with warnings.catch_warnings(record=True) as seen:
                warnings.simplefilter("always")
                y = m.exp(x, v)
            z = m.retraction(x, v)
            rec.step(2)
            rec.check(any(issubclass(w.category, RuntimeWarning)
                          for w in seen), f"{n}/exp/warns",
                      lambda: f"{history}: no RuntimeWarning",
                      nontrivial=history)
            rec.check(inst.same(y, z), f"{n}/exp/falls-back",
                      lambda: f"{history}: not the retraction",
                      nontrivial=history)
    rec.sample({"instance": n, "history": list(history)})
