"""Geodesic midpoints."""
import numpy as np

from .. import geo, zoo
from .c05 import conditioning, inside

ID = "C15"
LEVEL = "model_checking"
RULE = (
    "state = ordered pair of points (alphabet, coincident, displaced by 1e-9 "
    "to nearly the injectivity radius); transitions = pair_mean and dist calls"
)
ASSUMPTIONS = geo.ASSUME


def cases(tier):
    return geo.cases(tier, lacks=("pair_mean",))


def run_case(case, rec):
    inst = zoo.by_name(case["instance"])
    m, n = inst.get(), inst.name
    deep = case["tier"] == "thorough"
    pool = inst.points(generic=4 if deep else 3)
    for label, x in list(pool)[-4 if deep else -2:]:
        radius = min(3.0, inst.inj(x))
        for vl, v in inst.tangents(x, generic=1, maxbasis=2 if deep else 1):
            unit = max(inst.slice_norms(x, v), 1e-9)
            for s in ((1e-9, 1e-4, 1e-2, 0.3, 0.9) if deep
                      else (1e-9, 1e-2, 0.3, 0.9)):
                pool.append((f"{label}+{s:g}{vl}", inst.exp(
                    x, s * radius / unit * v)))
    # rounding puts unit vectors on either side of one, and so on
    for label, x in inst.points(generic=40, special=False) + inst.extremes():
        y = m.pair_mean(x, geo.copy(x))
        rec.step()
        rec.check(inst.same(x, y, 1e-8), f"{n}/pair_mean/coincident",
                  lambda: f"{label}: {y!r} for {x!r}", nontrivial=label)
    for lx, x in pool:
        y = m.pair_mean(x, geo.copy(x))
        rec.step()
        rec.check(inst.same(x, y, 1e-8), f"{n}/pair_mean/idempotent",
                  lambda: f"{lx}: {y!r} for {x!r}", nontrivial=lx)
        for ly, y in pool:
            w = (lx, ly)
            rec.state((n, w))
            if not inside(inst, x, y):
                continue
            rec.trace()
            rec.step(2)
            z = m.pair_mean(x, y)
            c = conditioning(inst, x, y)
            if not rec.check(inst.on_manifold(z), f"{n}/pair_mean/point",
                             lambda: f"{w}: {z!r}", nontrivial=w):
                continue
            d = inst.dist(x, y)
            a, b = inst.dist(x, z), inst.dist(z, y)
            tol = (1e-7 + 1e-7 * d) * c
            rec.check(abs(a - d / 2) <= tol and abs(b - d / 2) <= tol,
                      f"{n}/pair_mean/midpoint",
                      lambda: f"{w}: distances {a!r}, {b!r}; half is {d / 2}",
                      nontrivial=w)
            # componentwise: every factor and slice at its own midpoint
            mid = inst.exp(x, 0.5 * _log(inst, x, y)) \
                if _log(inst, x, y) is not None else None
            if mid is not None:
                rec.check(inst.same(z, mid, 1e-6 * c),
                          f"{n}/pair_mean/geodesic", lambda: f"{w}: {z!r} "
                          f"for {mid!r}", nontrivial=w)
            s = m.pair_mean(y, x)
            rec.check(inst.same(z, s, 1e-7 * c), f"{n}/pair_mean/symmetric",
                      lambda: f"{w}: {z!r} vs {s!r}", nontrivial=w)
            rec.outcome(f"1e{int(np.log10(d))}" if d > 0 else "0")
    rec.sample({"instance": n, "pairs": [p[0] for p in pool[:5]]})


def _log(inst, x, y):
    """Reference logarithm of array manifolds with elementwise geodesics."""
    if inst.kind != "array":
        return None
    sl = inst.sl
    if isinstance(sl, (zoo.EuclideanS,)):
        return y - x
    if isinstance(sl, zoo.CircleS):
        return 1j * x * np.angle(np.conj(x) * y)
    if isinstance(sl, zoo.GroupS):
        out = []
        for a, b in zip(inst.parts(x), inst.parts(y)):
            w, q = np.linalg.eig(zoo.H(a) @ b)
            if np.linalg.cond(q) > 1e3:
                return None
            lg = q @ np.diag(1j * np.angle(w)) @ np.linalg.inv(q)
            out.append(lg if inst.cplx else lg.real)
        return inst.join(out)
    if isinstance(sl, zoo.SphereS):
        p = y - np.vdot(x, y) * x
        t = sl.dist(x, y)
        return p if zoo.nrm(p) < 1e-12 else t * p / zoo.nrm(p)
    if isinstance(sl, zoo.ObliqueS):
        cols = []
        for j in range(x.shape[1]):
            s = zoo.SphereS((x.shape[0],))
            a, b = x[:, j], y[:, j]
            p = b - (a @ b) * a
            cols.append(p if zoo.nrm(p) < 1e-12
                        else s.dist(a, b) * p / zoo.nrm(p))
        return np.stack(cols, axis=1)
    return None
