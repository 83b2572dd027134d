"""Line searches return what they promise."""
import itertools

import numpy as np

from pymanopt.optimizers import line_search

from .. import core, geo, opt, zoo

ID = "C25"
LEVEL = "model_checking"
RULE = (
    "state = (searcher options, manifold, history of calls on one searcher, "
    "answer of every evaluation); answers range over {far below, just "
    "satisfying sufficient decrease, just violating it, equal to the start, "
    "slightly above, far above, +inf, NaN}; all answer trees of one call, "
    "deviation-bounded trees over histories of 2 (3) calls with directions, "
    "scales and starting costs of the alphabet"
)
ASSUMPTIONS = opt.ASSUME

SEARCHERS = {
    "bt": (line_search.BackTrackingLineSearcher, {}),
    "bt-3": (line_search.BackTrackingLineSearcher, {"max_iterations": 3}),
    "bt-1": (line_search.BackTrackingLineSearcher, {"max_iterations": 1}),
    "bt-odd": (line_search.BackTrackingLineSearcher, {
        "contraction_factor": 0.1, "optimism": 1.5,
        "sufficient_decrease": 0.4, "max_iterations": 4,
        "initial_step_size": 8}),
    "ad": (line_search.AdaptiveLineSearcher, {}),
    "ad-3": (line_search.AdaptiveLineSearcher, {"max_iterations": 3}),
    "ad-1": (line_search.AdaptiveLineSearcher, {"max_iterations": 1}),
    "ad-odd": (line_search.AdaptiveLineSearcher, {
        "contraction_factor": 0.2, "sufficient_decrease": 1e-3,
        "max_iterations": 4, "initial_step_size": 0.25}),
}
DEFAULTS = {
    "bt": {"contraction_factor": 0.5, "optimism": 2,
           "sufficient_decrease": 1e-4, "max_iterations": 25,
           "initial_step_size": 1},
    "ad": {"contraction_factor": 0.5, "sufficient_decrease": 0.5,
           "max_iterations": 10, "initial_step_size": 1},
}
NAMES = ("plane", "sphere", "product", "pd", "stiefel", "grassmann",
         "fixedrank")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for s in SEARCHERS:
        small = s[-2:] in ("-3", "-1")
        out.append({"id": f"{s}/plane", "s": s, "inst": "plane", "calls": 1,
                    "d": 9 if small else (4 if deep else 3), "k": 4})
        for name in NAMES if deep else NAMES[:5]:
            for calls in (2, 3):
                d = {2: 2, 3: 1}[calls]
                if deep:
                    d = 3 if name in ("plane", "sphere") else 2
                elif name not in ("plane", "sphere"):
                    d = 1
                out.append({"id": f"{s}/{name}", "s": s, "inst": name,
                            "calls": calls, "d": d, "k": 4 * calls})
    return out


def run_case(case, rec):
    name = case["inst"]
    inst = opt.inst(name)
    cls, options = SEARCHERS[case["s"]]
    par = dict(DEFAULTS[case["s"][:2]], **options)
    m = inst.make()
    x0 = opt.start_for(inst, "sd")
    tv = [v for _, v in inst.tangents(x0, generic=2, maxbasis=2)]
    scales = {1: (1.0, 1e-3, 50.0), 2: (1.0, 1e-2), 3: (1.0,)}[case["calls"]]
    # what the later calls on the same searcher look like
    later = [(f, g) for f in ("continue", "other")
             for g in ((1.0, 1e-2, 30.0) if case["calls"] == 2 else (1.0, 30.0))]
    plans = [[(sc, None)] + list(rest) for sc in scales
             for rest in itertools.product(later, repeat=case["calls"] - 1)]
    for plan in plans:
        def run(chooser):
            return play(chooser, rec, case, inst, m, cls(**options), par, x0,
                        tv, plan)
        for choices, _ in core.explore(
                run, deviations=case["d"], max_depth=case["k"],
                limit=200000):
            rec.trace()
            rec.state((case["id"], tuple(plan), choices))


def play(chooser, rec, case, inst, m, searcher, par, x0, tv, plan):
    x, f0 = geo.copy(x0), 1.0
    for call, step in enumerate(plan):
        if call == 0:
            s, d, df0 = step[0], tv[-1], -step[0] ** 2
            d = s * d
        else:
            how, s = step
            if how == "other" or last is None:
                x, f0 = geo.copy(x0), (5.0 if call == 1 else -3.0)
            else:
                x, f0 = last
            basis = [v for _, v in inst.tangents(x, generic=2, maxbasis=2)]
            d, df0 = s * basis[-1], -s * s
        last = one(chooser, rec, case, inst, m, searcher, par, x, d, f0, df0,
                   call, plan)


def answers(f0, bound):
    gap = abs(bound - f0)
    return [bound - 0.5 * gap, f0 - 10.0, bound, bound + 0.25 * gap, f0,
            f0 + 1e-9, f0 + 4.0, np.inf, np.nan]


def one(chooser, rec, case, inst, m, searcher, par, x, d, f0, df0, call,
        plan):
    label = case["id"]
    c = par["sufficient_decrease"]
    norm_d = inst.norm(x, d)
    trials = []
    tangents = []
    original = m.retraction

    def retraction(point, vector):
        out = original(point, vector)
        tangents.append((point, vector, out))
        return out

    def size_of(point):
        for p, v, o in reversed(tangents):
            if opt.key(o) == opt.key(point):
                return inst.norm(x, v), p, v
        return None, None, None

    def objective(point):
        for seen, value, _ in trials:
            if opt.key(seen) == opt.key(point):
                return value
        norm, _, v = size_of(point)
        a = norm / norm_d if norm is not None else 1.0
        # the first, accepting, answer is the default: it ends the search;
        # every other one is a deviation
        options = answers(f0, f0 + c * a * df0)
        value = options[chooser.choose(len(options), "objective")]
        trials.append((geo.copy(point), value, a))
        if len(trials) > 200:
            raise RuntimeError("the line search does not end")
        return value

    kept = (geo.copy(x), geo.copy(d))
    m.retraction = retraction
    try:
        step, newx = searcher.search(objective, m, x, d, f0, df0)
    finally:
        del m.retraction
    rec.step(len(trials))
    ctx = (plan, call, tuple(t[1] for t in trials))

    def bad(message):
        return lambda: f"{ctx}: {message()}"

    rec.check(opt.key(x) == opt.key(kept[0]) and np.array_equal(
        zoo.flat(d), zoo.flat(kept[1])), f"{label}/mutates",
        bad(lambda: "the point or the direction changed"), nontrivial=ctx)
    usable = rec.check(
        np.ndim(step) == 0 and np.isfinite(step) and step >= 0,
        f"{label}/step", bad(lambda: f"step size {step!r}"), nontrivial=ctx)
    if not usable:
        return None
    if step == 0:
        rec.check(opt.key(newx) == opt.key(x), f"{label}/rejected",
                  bad(lambda: f"step size 0 but moved to {newx!r}"),
                  nontrivial=ctx)
        value = f0
        rec.outcome("rejected")
    else:
        norm, base, v = size_of(newx)
        if not rec.check(norm is not None and opt.key(base) == opt.key(x)
                         and opt.close(norm, step, 1e-9),
                         f"{label}/retracts",
                         bad(lambda: f"step size {step}, but the new point is "
                             f"the retraction of a vector of norm {norm}"),
                         nontrivial=ctx):
            return None
        rec.check(
            zoo.gap(v, (step / norm_d) * d) <= 1e-9 * max(1e-12, zoo.nrm(v)),
            f"{label}/direction", bad(lambda: f"moved along {v!r}"),
            nontrivial=ctx)
        values = [t for t in trials if opt.key(t[0]) == opt.key(newx)]
        if not rec.check(len(values) == 1, f"{label}/evaluated",
                         bad(lambda: "the new point was never evaluated"),
                         nontrivial=ctx):
            return None
        value = values[0][1]
        rec.check(value <= f0, f"{label}/cost",
                  bad(lambda: f"accepted cost {value}, start {f0}"),
                  nontrivial=ctx)
        armijo = f0 + c * (step / norm_d) * df0
        rec.check(
            value <= armijo + 1e-12 * max(1, abs(armijo))
            or len(trials) > par["max_iterations"],
            f"{label}/sufficient-decrease",
            bad(lambda: f"accepted {value} > {armijo} after {len(trials)} "
                f"evaluations of {par['max_iterations']} + 1"),
            nontrivial=ctx)
        rec.outcome("accepted" if value <= armijo else "exhausted")
    rec.check(len(trials) <= par["max_iterations"] + 1, f"{label}/budget",
              bad(lambda: f"{len(trials)} evaluations"), nontrivial=ctx)
    # no step is given up while evaluations remain and a trial succeeded
    good = [i for i, (_, v, a) in enumerate(trials)
            if v <= f0 + c * a * df0 + 1e-12 * max(1.0, abs(f0))]
    if step == 0 and len(trials) <= par["max_iterations"]:
        rec.check(bool(good) and trials[good[0]][1] > f0 - 1e-12,
                  f"{label}/gives-up",
                  bad(lambda: f"rejected after {len(trials)} evaluations of "
                      f"{par['max_iterations']} + 1"), nontrivial=ctx)
    # trials shrink by the contraction factor, from the documented guess
    sizes = [t[2] for t in trials]
    rec.check(
        all(opt.close(b / a, par["contraction_factor"], 1e-7)
            for a, b in zip(sizes, sizes[1:])), f"{label}/contraction",
        bad(lambda: f"trial step factors {sizes}"), nontrivial=ctx)
    if call == 0 and sizes:
        rec.check(
            opt.close(sizes[0] * norm_d, par["initial_step_size"], 1e-9),
            f"{label}/initial-step",
            bad(lambda: f"first trial has length {sizes[0] * norm_d}"),
            nontrivial=ctx)
    rec.check(all(0 < a < np.inf for a in sizes), f"{label}/forward",
              bad(lambda: f"trial step factors {sizes}"), nontrivial=ctx)
    return (geo.copy(newx), value) if np.isfinite(value) else None
