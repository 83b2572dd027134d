"""dist is the geodesic distance."""
import numpy as np

from .. import geo, zoo
from ..geo import scalar
from .c05 import conditioning

ID = "C06"
LEVEL = "model_checking"
RULE = (
    "state = point of the alphabet (special, generic, antipodal, and displaced "
    "by 1e-9..pi along tangent directions); transitions = dist calls on every "
    "ordered pair, metric axioms on every triple, values against closed forms"
)
ASSUMPTIONS = geo.ASSUME


def cases(tier):
    return geo.cases(tier, lacks=("dist",))


def opposite(inst, x):
    """Antipodal point where that makes sense."""
    if inst.kind == "product":
        return [opposite(f, p) for f, p in zip(inst.factors, x)]
    if isinstance(inst.sl, (zoo.SphereS, zoo.ObliqueS, zoo.CircleS)):
        return -x
    return x


def run_case(case, rec):
    inst = zoo.by_name(case["instance"])
    m, n = inst.get(), inst.name
    deep = case["tier"] == "thorough"
    pool = inst.points(generic=4 if deep else 2)
    for label, x in inst.extremes():
        pool.append((label, x))
        v = inst.tangents(x, generic=1, maxbasis=1)[-1][1]
        pool.append((f"{label}+", inst.exp(x, 1e-3 * v)))
        pool.append((f"{label}++", inst.exp(x, 0.4 * v)))
    base = list(pool)
    for label, x in base[: 4 if deep else 3]:
        for vl, v in inst.tangents(x, generic=1, maxbasis=1):
            for s in (1e-9, 1e-6, 1e-3, 0.5, 1.4):
                pool.append((f"{label}+{s:g}{vl}", inst.exp(x, s * v)))
        y = opposite(inst, x)
        if not inst.same(x, y):
            pool.append((f"-{label}", y))
    # other representatives of the same point
    for label, x in base[:2]:
        for rl, r, _ in inst.representatives(x):
            pool.append((f"{label}~{rl}", r))
    # rounding puts unit vectors on either side of one, and so on
    for label, x in inst.points(generic=40, special=False):
        d = m.dist(x, geo.copy(x))
        rec.step()
        rec.check(scalar(d) and 0 <= d <= 1e-7 * conditioning(inst, x) * max(
            1, zoo.nrm(x) / 3), f"{n}/dist/coincident",
            lambda: f"{label}: {d!r}", nontrivial=label)
    size = len(pool)
    cond = [conditioning(inst, p) for _, p in pool]
    table = np.zeros((size, size))
    for i, (lx, x) in enumerate(pool):
        rec.state((n, np.round(zoo.flat(x), 12).tobytes()))
        for j, (ly, y) in enumerate(pool):
            w = (lx, ly)
            d = m.dist(x, geo.copy(y))
            rec.step()
            rec.trace()
            if not rec.check(scalar(d) and d >= 0, f"{n}/dist/number",
                             lambda: f"{w}: {d!r}", nontrivial=w):
                table[i, j] = np.nan
                continue
            table[i, j] = d
            ref = inst.dist(x, y)
            c = max(cond[i], cond[j])
            # arccos-type formulas lose half the digits at both ends
            tol = (1e-7 + 1e-8 * ref) * c * max(1, zoo.nrm(x) / 3)
            rec.check(abs(d - ref) <= tol, f"{n}/dist/value",
                      lambda: f"{w}: dist {d!r}, geodesic distance {ref!r}",
                      nontrivial=w)
            if ref > 1e-6:
                rec.check(d > 0, f"{n}/dist/zero-only-if-equal",
                          lambda: f"{w}: 0 but geodesic distance {ref}",
                          nontrivial=w)
            rec.outcome("0" if ref == 0 else f"1e{int(np.log10(ref))}")
    for i in range(size):
        for j in range(size):
            c = max(cond[i], cond[j])
            rec.check(not abs(table[i, j] - table[j, i]) > 1e-7 * c * max(
                1, zoo.nrm(pool[i][1])), f"{n}/dist/symmetric",
                lambda: f"{pool[i][0]} {pool[j][0]}: {table[i, j]} "
                f"{table[j, i]}", nontrivial=(i, j))
    worst = np.nanmax(
        table[:, None, :] - table[:, :, None] - table[None, :, :])
    c = max(cond)
    rec.check(worst <= 3e-7 * c * max(1, max(zoo.nrm(p[1]) for p in pool)),
              f"{n}/dist/triangle",
              lambda: f"triangle inequality violated by {worst}")
    rec.evaluations += size**3
    rec.sample({"instance": n, "points": [p[0] for p in pool[:6]]})
