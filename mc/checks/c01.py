"""Every operation that produces points produces points of the manifold."""
import itertools

import numpy as np

from .. import geo, zoo

ID = "C01"
LEVEL = "model_checking"
RULE = (
    "state = manifold point (invariant rounded to 1e-9); transitions = real "
    "random_point / retraction / exp / pair_mean calls; breadth-first closure "
    "of the point alphabet to the stated depth; each reached point is checked "
    "against the analytic membership constraint; non-trivial = distinct "
    "(history, operation, argument) evaluations"
)
ASSUMPTIONS = geo.ASSUME


def cases(tier):
    return geo.cases(tier)


FAR = {  # moves that are defined and well conditioned for steps of any length
    zoo.SphereS: ("retraction", "exp"), zoo.ObliqueS: ("retraction", "exp"),
    zoo.CircleS: ("retraction", "exp"), zoo.StiefelS: ("retraction",),
    zoo.GrassmannS: ("retraction", "exp"), zoo.GroupS: ("retraction", "exp"),
    zoo.PositiveS: ("retraction",), zoo.ElliptopeS: ("retraction",),
    zoo.EuclideanS: ("retraction", "exp"), zoo.SymS: ("retraction", "exp"),
    zoo.SkewS: ("retraction", "exp"), zoo.PoincareS: ("retraction", "exp"),
}


def far(inst):
    if inst.kind == "product":
        return set.intersection(*[set(far(f)) for f in inst.factors])
    if inst.kind == "fixedrank":
        return {"retraction"}
    return set(FAR.get(type(inst.sl), ())) - inst.lacks


def residual(inst, y):
    if not inst.shape_ok(y):
        return "shape"
    return np.abs(inst.pres(y)).max() if zoo.finite(y) else "not finite"


def _limit(inst):
    names = [inst.name]
    if any("Poincare" in n for n in names):
        return 3.0
    return 20.0


def run_case(case, rec):
    inst = zoo.by_name(case["instance"])
    deep = case["tier"] == "thorough"
    m = inst.get()
    n = inst.name

    def ok(y, op, history):
        good = rec.check(
            inst.on_manifold(y), f"{n}/{op}/membership",
            lambda: f"{history}: {op} left the manifold; residual "
            f"{residual(inst, y)} "
            f"value {y!r}", nontrivial=history)
        rec.outcome(f"{op}:{'on' if good else 'off'}")
        return good

    seeds = 12 if deep else 6
    start = inst.points(generic=3 if deep else 2)
    for s in range(seeds):
        np.random.seed(s)
        y = m.random_point()
        rec.step()
        rec.trace()
        if ok(y, "random_point", (f"seed{s}",)) and s < 2:
            start.append((f"random{s}", y))

    scales = [1e-9, 1e-4, 0.3, 1.0, 2.5, min(6.0, _limit(inst))]
    if _limit(inst) < 6:
        scales += [20.0, 100.0, 1e3]  # the line searches go there
    for (lx, x), t in itertools.product(start, (50.0, 1e4, 1e6)):
        for vl, v in inst.tangents(x, generic=1, maxbasis=2):
            for op in sorted(far(inst)):
                for s in (t, -t):
                    y = getattr(m, op)(x, s * v)
                    rec.step()
                    rec.trace()
                    ok(y, op, (lx, f"{op}({s:g}*{vl})"))
    for lx, x in inst.extremes():
        for vl, v in inst.tangents(x, generic=2, maxbasis=2):
            for op, s in itertools.product(
                    ("retraction", "exp"), (1e-6, 0.1, 1.0, -1.0)):
                if op in inst.lacks:
                    continue
                y = getattr(m, op)(x, s * v)
                rec.step()
                rec.trace()
                ok(y, op, (lx, f"{op}({s:g}*{vl})"))
    if inst.kind == "fixedrank":
        # steps onto matrices of lower rank
        for (lx, x), count in itertools.product(
                start + inst.extremes(), range(1, inst.r + 1)):
            drop = np.zeros((inst.r, inst.r))
            for i in range(inst.r - count, inst.r):
                drop[i, i] = -x[1][i]
            v = inst.wrap(x, (0 * x[0], drop, 0 * x[2].T))
            y = m.retraction(x, v)
            rec.step()
            rec.trace()
            ok(y, "retraction", (lx, f"drop{count}"))
    frontier = [((lab,), x) for lab, x in start]
    seen = set()
    depth = 4 if deep else 3
    for level in range(depth + 1):
        nxt = []
        for history, x in frontier:
            key = np.round(zoo.flat(inst.invariant(x)), 9).tobytes()
            if key in seen:
                continue
            seen.add(key)
            rec.state((n, key))
            if level == depth:
                continue
            zero = m.zero_vector(x)
            for op in ("retraction", "exp"):
                if op in inst.lacks:
                    continue
                y = getattr(m, op)(x, zero)
                rec.step()
                rec.check(inst.same(x, y), f"{n}/{op}/zero",
                          lambda: f"{history}: {op}(x, 0) is not x",
                          nontrivial=history)
            if level == 0:
                tv = inst.tangents(x, generic=1 if not deep else 2,
                                   maxbasis=2 if not deep else 4)
                sc = scales
            else:
                tv = inst.tangents(x, generic=1, maxbasis=1)
                sc = scales[2:3]
            for (vl, v), s, op in itertools.product(
                    tv, sc, ("retraction", "exp")):
                if op in inst.lacks:
                    continue
                y = getattr(m, op)(x, s * v)
                rec.step()
                h = history + (f"{op}({s:g}*{vl})",)
                rec.trace()
                if ok(y, op, h) and (level or s == 0.3):
                    nxt.append((h, y))
                if s == 1.0:
                    # the same direction given with the opposite sign
                    z = getattr(m, op)(x, -v)
                    rec.step()
                    ok(z, op, h + ("negated",))
        if "pair_mean" not in inst.lacks and level == 0:
            for (ha, a), (hb, b) in itertools.product(frontier, frontier):
                if _antipodal(inst, a, b):
                    continue
                y = m.pair_mean(a, b)
                rec.step()
                rec.trace()
                h = ("pair_mean", ha, hb)
                if ok(y, "pair_mean", h) and ha != hb:
                    nxt.append((h, y))
        if nxt:
            rec.sample({"instance": n, "history": [str(a) for a in nxt[-1][0]]})
        frontier = nxt
    # a long trajectory must not drift away
    for label, x in start[:2]:
        for i in range(200 if deep else 60):
            tv = inst.tangents(x, generic=0, maxbasis=2)
            if not tv:
                break
            op = "exp" if i % 2 and "exp" not in inst.lacks else "retraction"
            x = getattr(m, op)(x, 0.2 * tv[i % len(tv)][1])
            rec.step()
            if not ok(x, op, (label, "trajectory", i)):
                break


def _antipodal(inst, a, b):
    """Pairs in each other's cut locus have no unique midpoint."""
    if inst.kind == "product":
        return any(_antipodal(f, p, q)
                   for f, p, q in zip(inst.factors, a, b))
    sl = inst.sl
    for p, q in zip(inst.parts(a), inst.parts(b)):
        if isinstance(sl, zoo.SphereS) and zoo.nrm(p + q) < 1e-6:
            return True
        if isinstance(sl, zoo.ObliqueS) and np.linalg.norm(
                p + q, axis=0).min() < 1e-6:
            return True
        if isinstance(sl, zoo.CircleS) and np.abs(p + q).min() < 1e-6:
            return True
        if isinstance(sl, zoo.GroupS) and np.abs(np.abs(np.angle(
                np.linalg.eigvals(zoo.H(p) @ q))) - np.pi).min() < 1e-6:
            return True
    return False
