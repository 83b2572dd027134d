"""Optimizers stop when, and only when, a criterion is met."""
import itertools

import numpy as np

from .. import core, geo, opt, zoo

ID = "C23"
LEVEL = "model_checking"
RULE = (
    "for every environment (optimizer, manifold, answer script with up to D "
    "deviations, clock schedule) the whole unbudgeted history is recorded by "
    "growing the iteration budget; then every single criterion and every pair "
    "of criteria is placed at every iterate of that history and the run must "
    "end exactly at the first iterate where one holds, naming one that holds; "
    "state = (environment, criteria)"
)
ASSUMPTIONS = opt.ASSUME + [
    "the history under an iteration budget n is a prefix of the history under "
    "a larger one (particle swarm, whose inertia depends on the budget, is "
    "explored against its evaluation schedule instead)"]
NAMES = ("plane", "sphere", "product", "stiefel", "fixedrank", "own")
SCHEDULES = {  # seconds per cost and gradient evaluation
    "even": (2.0**-10, 2.0**-10), "slow-cost": (4.0, 0.0),
    "slow-gradient": (0.0, 4.0)}
FAR = {"max_iterations": 500, "max_cost_evaluations": 10**9,
       "min_gradient_norm": 1e-300, "min_step_size": 1e-300,
       "max_time": 1e9}
WORDS = {"max_iterations": "max iterations", "max_time": "max time",
         "min_gradient_norm": "min grad norm",
         "min_step_size": "min step_size",
         "max_cost_evaluations": "max cost evals"}


def cases(tier):
    deep = tier == "thorough"
    out = []
    for config in opt.CONFIGS:
        for name in NAMES:
            if not opt.supports(name, config):
                continue
            slow = config[:2] == "nm"
            if slow and name == "product" and not deep:
                continue
            for schedule in SCHEDULES:
                if schedule != "even" and name not in ("plane", "sphere") \
                        and not deep:
                    continue
                out.append({
                    "id": f"{config}/{name}", "config": config, "inst": name,
                    "schedule": schedule, "kind": "history",
                    "n": (5 if slow else 7) + (3 if deep else 0),
                    "d": 1 if deep and not slow else 0, "k": 6,
                    "scripts": 0 if schedule != "even" or slow else 2})
        if config in opt.DESCENT:
            for name in CRITICAL:
                if opt.supports(name, config):
                    out.append({"id": f"{config}/{name}", "config": config,
                                "inst": name, "kind": "critical"})
            for name in ARRIVE:
                if opt.supports(name, config):
                    out.append({"id": f"{config}/{name}", "config": config,
                                "inst": name, "kind": "arrival",
                                "n": 9 if deep else 5})
    return out


# -- critical starts ---------------------------------------------------------

CRITICAL = ("plane", "sphere", "stiefel", "grassmann", "product", "line",
            "unitary", "circle")


def critical_points(name):
    """(label, cost, x) with a Riemannian gradient that is zero up to
    rounding: minima, saddles and maxima."""
    inst = opt.inst(name)
    out = []
    if name in ("plane", "line"):
        for s in (1.0, -1.0):
            t = np.arange(1.0, inst.shape[0] + 1)
            c = opt.Cost(lambda x, s=s: s * float((x - t) @ (x - t)) / 2,
                         lambda x, s=s: s * (x - t), lambda x, e, s=s: s * e)
            out.append((f"sign{s}", c, t))
    elif name in ("sphere", "stiefel", "grassmann"):
        n, p = (inst.shape + (1,))[:2]
        a = np.diag([3.0, 1.0, -2.0][:n]).astype(
            complex if inst.cplx else float)
        w = np.diag(np.arange(1.0, p + 1)) if name == "stiefel" else np.eye(p)
        one = len(inst.shape) == 1

        def lift(x):
            return x[:, None] if one else x

        def drop(x):
            return x[:, 0] if one else x

        c = opt.Cost(
            lambda x: float(np.real(np.trace(
                zoo.H(lift(x)) @ a @ lift(x) @ w))),
            lambda x: drop(2 * a @ lift(x) @ w),
            lambda x, e: drop(2 * a @ lift(e) @ w))
        for cols in itertools.permutations(range(n), p):
            x = np.eye(n)[:, list(cols)].astype(a.dtype)
            out.append((f"eigen{cols}", c, drop(x)))
    elif name == "product":
        f, e = opt.inst("sphere"), opt.inst("plane")
        for (l1, c1, x1), (l2, c2, x2) in itertools.product(
                critical_points("sphere"), critical_points("plane")):
            c = opt.Cost(
                lambda x, c1=c1, c2=c2: c1.cost(x[0]) + c2.cost(x[1]),
                lambda x, c1=c1, c2=c2: [c1.grad(x[0]), c2.grad(x[1])],
                lambda x, e, c1=c1, c2=c2: [c1.hess(x[0], e[0]),
                                            c2.hess(x[1], e[1])])
            out.append((f"{l1},{l2}", c, [x1, x2]))
    elif name == "unitary":
        c = opt.Cost(
            lambda x: float(np.real(np.trace(x))),
            lambda x: np.eye(2, dtype=complex),
            lambda x, e: np.zeros((2, 2), dtype=complex))
        for s in itertools.product((1.0, -1.0), repeat=2):
            out.append((f"signs{s}", c, np.diag(s).astype(complex)))
    elif name == "circle":
        c = opt.Cost(
            lambda x: float(np.sum(np.real(x))),
            lambda x: np.ones(2, dtype=complex),
            lambda x, e: np.zeros(2, dtype=complex))
        for s in itertools.product((1.0, -1.0), repeat=2):
            out.append((f"signs{s}", c, np.array(s, dtype=complex)))
    return out


def run_critical(case, rec):
    config, name = case["config"], case["inst"]
    label = f"{config}/{name}/critical"
    for where, cost, x in critical_points(name):
        for verbosity in (0, 2):
            w = opt.World(opt.inst(name), cost=cost)
            assert opt.inst(name).norm(x, w.rgrad(x)) < 1e-12
            out = opt.execute(w, opt.build(
                config, verbosity=verbosity), start=geo.copy(x))
            rec.trace()
            rec.step(out.calls)
            rec.state((name, config, where))
            r = out.result
            rec.check(opt.same_point(r.point, x, 1e-14), label,
                      lambda: f"{where}: left the critical point {x!r} for "
                      f"{r.point!r}", nontrivial=where)
            rec.check("min grad norm" in r.stopping_criterion, label,
                      lambda: f"{where}: {r.stopping_criterion}",
                      nontrivial=where)
            rec.check(len(w.order) == 1, label,
                      lambda: f"{where}: {len(w.order)} points evaluated",
                      nontrivial=where)


# -- arriving at a critical point --------------------------------------------

ARRIVE = ("plane", "sphere", "product", "stiefel", "grassmann", "pd",
          "fixedrank", "own")


class Once:
    """Deviates at one choice only."""

    def __init__(self, where):
        self.where, self.count = where, -1

    def choose(self, n, kind):
        self.count += 1
        return int(self.count == self.where)


def run_arrival(case, rec):
    """The gradient is exactly zero at the j-th iterate after the start."""
    config, name = case["config"], case["inst"]
    label = f"{config}/{name}/arrival"
    inst = opt.inst(name)
    for j, least, which in itertools.product(
            range(case["n"]), (0.0, 1e-300, 1e-6), (0, 1)):
        w = opt.World(inst, chooser=Once(j), grads=(0.0,))
        with np.errstate(all="ignore"):
            out = opt.execute(w, opt.build(
                config, min_gradient_norm=least, min_step_size=0.0,
                max_iterations=case["n"] + 20, log_verbosity=1),
                start=opt.start_for(inst, config, which))
        r = out.result
        rec.trace()
        rec.step(out.calls)
        rec.state((label, j, least, which))
        ctx = (j, least, which)
        there = [k for k, g in w.gmemo.items() if zoo.nrm(g) == 0]
        if not there:  # an earlier criterion or no step was accepted
            rec.outcome("never got there")
            continue
        rec.outcome("arrived")
        rec.check("min grad norm" in r.stopping_criterion and
                  r.gradient_norm == 0 and opt.key(r.point) == there[0], label,
                  lambda: f"{ctx}: the gradient vanishes at iterate {j + 1}, "
                  f"but: {r.stopping_criterion}, gradient norm "
                  f"{r.gradient_norm}", nontrivial=ctx)
        rec.check(r.cost == w.value(r.point) and
                  out.log["gradient_norm"][-1] == 0, label,
                  lambda: f"{ctx}: cost {r.cost}, log {out.log}",
                  nontrivial=ctx)


# -- histories ---------------------------------------------------------------


def go(case, choices, chooser, options):
    config, name = case["config"], case["inst"]
    inst = opt.inst(name)
    tc, tg = SCHEDULES[case["schedule"]]
    costs = opt.milder if config[:2] in ("nm", "ps") else opt.adversary
    w = opt.World(inst, chooser=chooser or core.Chooser(choices), costs=costs,
                  tick_cost=tc, tick_grad=tg)
    start = opt.start_for(inst, config, case.get("which", 0))
    o = dict(FAR)
    o.update(options)
    out = opt.execute(w, opt.build(config, log_verbosity=1, **o), start=start)
    out.setup = out.t0 + tc * (1 if config in opt.DESCENT else len(start)) + (
        tg if config in opt.DESCENT else 0)
    return out


def run_case(case, rec):
    if case["kind"] == "critical":
        return run_critical(case, rec)
    if case["kind"] == "arrival":
        return run_arrival(case, rec)
    config = case["config"]
    label = f"{config}/{case['inst']}"
    slow = config[:2] == "nm"
    scripts = []
    if case["d"]:
        def probe(chooser):
            return go(case, None, chooser, {"max_iterations": case["n"]})
        for choices, out in core.explore(
                probe, deviations=case["d"], max_depth=case["k"],
                limit=10000):
            scripts.append(choices)
    else:
        scripts.append(())
        for i in range(case["scripts"]):
            scripts.append((0,) * (1 + 2 * i) + (1 + i, 2 + 3 * i))
    for choices in scripts:
        for which in ((0,) if slow or choices else (0, 1)):
            one = dict(case, which=which)
            explore_history(one, choices, label, rec)


def explore_history(case, choices, label, rec):
    config = case["config"]
    pso = config[:2] == "ps"
    # 1. the history, one iterate per iteration budget
    history = []
    if pso:
        full = go(case, choices, None, {"max_iterations": case["n"] + 2})
        pop = opt.CONFIGS[config][1]["population_size"]
        tc = SCHEDULES[case["schedule"]][0]
        best = np.inf
        for it in range(1, case["n"] + 2):
            history.append({
                "iteration": it, "evals": pop * it,
                "elapsed": (it - 1) * pop * tc, "gnorm": np.inf,
                "step": np.inf, "point": full.log["point"][it - 1],
                "cost": full.log["cost"][it - 1]})
    else:
        base = 0 if config[:2] == "tr" else 1
        for n in range(1, case["n"] + 1):
            out = go(case, choices, None, {"max_iterations": n})
            r = out.result
            rec.trace()
            rec.step(out.calls)
            if r.iterations < n and (
                    "min grad norm" in r.stopping_criterion
                    and r.gradient_norm == 0):
                break
            if not rec.check(
                    r.iterations == n and "max iterations" in
                    r.stopping_criterion, f"{label}/max_iterations",
                    lambda: f"{choices}: budget {n}, stopped after "
                    f"{r.iterations}: {r.stopping_criterion}",
                    nontrivial=(choices, n)):
                # a step that is exactly zero or a gradient that vanishes
                return
            history.append({
                "iteration": n, "evals": out.calls,
                "elapsed": out.t1 - out.t0, "slack": out.setup - out.t0,
                "gnorm": np.inf if r.gradient_norm is None
                else r.gradient_norm,
                "step": np.inf if config not in opt.LINE or n == 1
                else r.step_size,
                "point": r.point, "cost": r.cost})
            if config in opt.LINE and n > 1 and (
                    r.step_size == 0 or np.isnan(r.step_size)):
                break
        if base == 0:
            w = opt.World(opt.inst(case["inst"]))
            x = opt.start_for(opt.inst(case["inst"]), config, case["which"])
            tc, tg = SCHEDULES[case["schedule"]]
            history.insert(0, {
                "iteration": 0, "evals": 1, "elapsed": tc + tg,
                "slack": tc + tg, "gnorm": w.gnorm(x), "step": np.inf,
                "point": x, "cost": w.cost(x)})
    # 2. all placements of one and of two criteria
    singles = {}
    for k in ("max_cost_evaluations", "max_time", "min_gradient_norm",
              "min_step_size"):
        singles[k] = thresholds(k, history)
    singles["max_iterations"] = [
        h["iteration"] for h in history if h["iteration"] >= 1]
    trials = [{k: v} for k, vs in singles.items() for v in vs]
    # budgets that are used up from the start
    trials += [{k: 0} for k in ("max_cost_evaluations", "max_time",
                                "max_iterations")]
    for a, b in itertools.combinations(singles, 2):
        for va, vb in itertools.product(thin(singles[a]), thin(singles[b])):
            trials.append({a: va, b: vb})
    for options in trials:
        if pso:
            options = dict(options)
            if "max_iterations" in options:
                # the inertia depends on this budget
                if len(options) > 1:
                    continue
            else:
                options["max_iterations"] = case["n"] + 2
        verdict(case, choices, label, rec, history, options, pso)


def thin(values):
    values = sorted(values)
    return [values[i] for i in sorted({0, len(values) // 2,
                                       len(values) - 1})] if values else []


def thresholds(k, history):
    """Values that separate the iterates of the history for criterion k."""
    field = {"max_cost_evaluations": "evals", "max_time": "elapsed",
             "min_gradient_norm": "gnorm", "min_step_size": "step"}[k]
    seen = sorted({h[field] for h in history if np.isfinite(h[field])})
    out = set()
    for v in seen:
        if k == "max_cost_evaluations":
            out |= {v, v + 1}
        elif k == "max_time":
            out |= {v * 1.0001 + 1e-6}
        else:
            out |= {v * 1.000001 + 1e-12, v * 0.999999}
    return [v for v in sorted(out) if v > 0]


def holds(k, v, h):
    """True, False, or None when the clock's start decides."""
    if k == "max_iterations":
        return h["iteration"] >= v
    if k == "max_cost_evaluations":
        return h["evals"] >= v
    if k == "min_gradient_norm":
        return h["gnorm"] <= v
    if k == "min_step_size":
        return h["step"] < v
    late = h["elapsed"] >= v
    early = h["elapsed"] - h.get("slack", 0) >= v
    return late if late == early else None


def verdict(case, choices, label, rec, history, options, pso):
    given = {k: v for k, v in options.items()
             if not (pso and k == "max_iterations" and len(options) > 1)}
    stop = None
    for h in history:
        states = {k: holds(k, v, h) for k, v in dict(FAR, **given).items()
                  if not (pso and k == "max_iterations" and k not in given)}
        if any(s is None for s in states.values()):
            return  # undecidable from outside: when did the clock start?
        if any(states.values()):
            stop = h
            break
    if stop is None:
        return
    out = go(case, choices, None, options)
    r = out.result
    rec.trace()
    rec.step(out.calls)
    rec.state((label, case["schedule"], case["which"], choices,
               tuple(sorted(given.items()))))
    ctx = f"{choices} {given}"
    names = "+".join(sorted(given))
    rec.check(
        r.iterations == stop["iteration"], f"{label}/{names}",
        lambda: f"{ctx}: stopped after {r.iterations} iterations "
        f"({r.stopping_criterion}), the first iterate that meets a criterion "
        f"is {stop['iteration']}", nontrivial=ctx)
    if r.iterations != stop["iteration"]:
        return
    named = [k for k in WORDS if WORDS[k] in r.stopping_criterion]
    rec.check(
        len(named) == 1 and states.get(named[0]),
        f"{label}/{names}/reason",
        lambda: f"{ctx}: {r.stopping_criterion!r}, but the criteria that hold "
        f"are {states}", nontrivial=ctx)
    rec.outcome(WORDS[named[0]] if named else "?")
    if not (pso and "max_iterations" in given):
        rec.check(
            opt.same_point(r.point, stop["point"], 1e-12) and opt.close(
                r.cost, stop["cost"], 1e-12), f"{label}/{names}/iterate",
            lambda: f"{ctx}: returned another iterate than the one the "
            "criterion holds at", nontrivial=ctx)
