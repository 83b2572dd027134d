"""The log is a faithful record of the run."""
import numpy as np

from .. import core, geo, opt, zoo

ID = "C30"
LEVEL = "model_checking"
RULE = (
    "state = (optimizer configuration, manifold, budget, log verbosity, "
    "sequence of answered costs); every sequence of up to D deviating answers "
    "among the first K fresh evaluations, for every budget and every history "
    "of runs on the same optimizer; every log column is recomputed from the "
    "recorded environment"
)
ASSUMPTIONS = opt.ASSUME
BUDGETS = {
    "iterations1": {"max_iterations": 1},
    "iterations2": {"max_iterations": 2},
    "iterations7": {"max_iterations": 7},
    "evaluations9": {"max_iterations": 50, "max_cost_evaluations": 9},
    "time": {"max_iterations": 50, "max_time": 30 * 2.0**-10},
    "gradient": {"max_iterations": 60, "min_gradient_norm": 0.3},
    "step": {"max_iterations": 60, "min_step_size": 0.2},
    "mixed": {"max_iterations": 6, "max_cost_evaluations": 12,
              "max_time": 40 * 2.0**-10, "min_gradient_norm": 1e-3,
              "min_step_size": 1e-4},
}
LIMITS = {"max_time": 1000, "max_iterations": 1000, "min_gradient_norm": 1e-6,
          "min_step_size": 1e-10, "max_cost_evaluations": 5000}
NAMES = ("plane", "sphere", "product", "stiefel", "pd", "grassmann", "circle",
         "hyperbolic", "oblique", "fixedrank", "mixed", "unitary", "line",
         "elliptope", "product1", "own")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for config in opt.CONFIGS:
        for name in NAMES:
            if not opt.supports(name, config):
                continue
            slow = config[:2] == "nm" and name not in ("plane", "line")
            main = name in NAMES[:3]
            for b in BUDGETS:
                if not main and b != "mixed" and not deep:
                    continue
                short = b in ("iterations2", "iterations7", "evaluations9",
                              "mixed")
                d = 1 if short and (main or deep) else 0
                k = 3 if slow else 6
                if deep:
                    d, k = 1, 6 if slow else 20
                    if name in ("plane", "sphere") and short and not slow:
                        d, k = 2, 8
                out.append({"id": f"{config}/{name}", "config": config,
                            "inst": name, "budget": b, "d": d, "k": k})
            if main:
                out.append({"id": f"{config}/{name}", "config": config,
                            "inst": name, "budget": None, "d": 0, "k": 0})
    return sorted(out, key=lambda c: (-c["d"], -c["k"]))


def run_case(case, rec):
    if case["budget"] is None:
        return histories(case, rec)
    config, name = case["config"], case["inst"]
    inst = opt.inst(name)
    start = opt.start_for(inst, config)
    options = dict(BUDGETS[case["budget"]])
    costs = opt.milder if config[:2] in ("nm", "ps") else opt.adversary

    def run(chooser):
        world = opt.World(inst, chooser=chooser, costs=costs,
                          watch=("retraction",))
        return attempt(world, config, start, log_verbosity=1, **options)

    for choices, out in core.explore(
            run, deviations=case["d"], max_depth=case["k"], limit=100000):
        rec.trace()
        rec.step(out.calls)
        rec.state((case["id"], case["budget"], choices))
        judge(rec, case["id"], config, inst, options, start, out,
              (case["budget"], choices))


def attempt(world, config, start, **options):
    times, steps = [], []

    def stamp(x):
        times.append((world.clock.now, geo.copy(x), world.value(x)))

    world.on_cost = stamp
    searches = {"calls": []}
    o = opt.build(config, **options)
    if config in opt.LINE:
        cls, extra = opt.CONFIGS[config]
        extra = extra() if callable(extra) else dict(extra)
        default = opt.BT() if config.startswith("sd") else opt.AD()
        extra["line_searcher"] = opt.RecordingSearcher(
            extra.get("line_searcher") or default, searches)
        o = cls(**{"verbosity": 0, **extra, **options})
    out = opt.execute(world, o, start=geo.copy(start))
    out.times, out.searches, out.optimizer = times, searches["calls"], o
    return out


def judge(rec, label, config, inst, options, start, out, ctx):
    r, w = out.result, out.world

    def check(ok, what, message):
        rec.check(ok, f"{label}/{what}", lambda: f"{ctx}: {message()}",
                  nontrivial=(what, ctx))

    log = r.log
    check(isinstance(log, dict) and log.get("iterations") is not None,
          "present", lambda: f"log {log}")
    limits = {**LIMITS, **options}
    limits = {k: v for k, v in limits.items() if k in LIMITS}
    told = dict(log["stopping_criteria"])
    if config[:2] in ("nm", "ps"):
        # documented defaults depending on the dimension: see `histories`
        for k in ("max_cost_evaluations", "max_iterations"):
            if k not in options:
                limits.pop(k)
                told.pop(k)
    check(told == limits, "limits",
          lambda: f"logged limits {told}, the run had {limits}")
    check(log["optimizer"] == type(out.optimizer).__name__, "optimizer",
          lambda: repr(log["optimizer"]))
    given = {k: v for k, v in opt.CONFIGS[config][1].items()
             if k in ("beta_rule", "orth_value")} if isinstance(
                 opt.CONFIGS[config][1], dict) else {}
    if config[:2] == "cg":
        told = log["optimizer_parameters"]
        given = {"beta_rule": "HestenesStiefel", "orth_value": np.inf,
                 **given}
        check(all(told.get(k) == v for k, v in given.items()), "parameters",
              lambda: f"logged parameters {told}, given {given}")
    rows = log["iterations"]
    n = len(rows["iteration"])
    check(n >= 1 and all(len(v) == n for v in rows.values()), "columns",
          lambda: f"{({k: len(v) for k, v in rows.items()})} entries")
    numbers = list(rows["iteration"])
    first = 0 if config in opt.TRUST else 1
    check(numbers == list(range(first, r.iterations + 1)), "numbering",
          lambda: f"entries {numbers}, {r.iterations} iterations")
    times = list(rows["time"])
    check(all(a <= b for a, b in zip(times, times[1:])) and
          out.t0 <= times[0] and times[-1] <= out.t1, "time",
          lambda: f"times {times}, run from {out.t0} to {out.t1}")
    points, costs = list(rows["point"]), list(rows["cost"])
    for i, (x, c) in enumerate(zip(points, costs)):
        k = opt.key(x)
        check(k in w.memo and opt.close(w.memo[k], c, 1e-13), "cost",
              lambda: f"entry {i}: cost {c}, the cost function answered "
              f"{w.memo.get(k)} at {x}")
        if "gradient_norm" in rows:
            true = w.gnorm(x)
            told = rows["gradient_norm"][i]
            check(abs(true - told) <= 1e-6 * true + 1e-7, "gradient-norm",
                  lambda: f"entry {i}: gradient norm {told}, at the point it "
                  f"is {true}")
    if config in opt.DESCENT:
        check("gradient_norm" in rows, "gradient-norm", lambda: f"{list(rows)}")
    check(opt.key(points[-1]) == opt.key(r.point) and
          opt.close(costs[-1], r.cost, 1e-13), "last",
          lambda: f"last entry {costs[-1]} at {points[-1]}, result {r.cost} "
          f"at {r.point}")
    if config in opt.LINE:
        true = [start] + [e["newx"] for e in out.searches]
        check(len(true) == n and all(opt.same_point(a, b, 1e-12)
                                     for a, b in zip(points, true)),
              "iterates", lambda: f"logged {points}, the iterates were {true}")
    elif config in opt.TRUST:
        check(opt.same_point(points[0], start, 1e-12), "iterates",
              lambda: f"first entry {points[0]}, started at {start}")
        moves = {(opt.key(a[0]), opt.key(o)) for e, a, o in w.events
                 if e == "retraction"}
        for i, (a, b) in enumerate(zip(points, points[1:])):
            check(opt.key(a) == opt.key(b) or
                  (opt.key(a), opt.key(b)) in moves, "iterates",
                  lambda: f"entry {i + 1} at {b} was not reached from {a}")
    else:
        for i, (t, c) in enumerate(zip(times, costs)):
            lowest = min(v for s, _, v in out.times if s <= t)
            check(c == lowest, "best", lambda: f"entry {i}: cost {c}, the "
                  f"best evaluation by then was {lowest}")
        before = [sum(s <= t for s, _, _ in out.times) for t in times]
        check(all(a < b for a, b in zip(before, before[1:])), "progress",
              lambda: f"evaluations before each entry: {before}")
    rec.outcome(r.stopping_criterion.split(" reached")[0])


def frozen(log):
    return {k: [geo.copy(v) for v in vs]
            for k, vs in (log["iterations"] or {}).items()}


def same(a, b):
    return a.keys() == b.keys() and all(
        len(a[k]) == len(b[k]) and all(
            np.array_equal(zoo.flat(p), zoo.flat(q), equal_nan=True)
            for p, q in zip(a[k], b[k])) for k in a)


def histories(case, rec):
    """Verbosity levels, default limits and logs of consecutive runs."""
    config, name, label = case["config"], case["inst"], case["id"]
    inst = opt.inst(name)
    start = opt.start_for(inst, config)
    dim = int(inst.get().dim)
    kept = {}
    for level in (0, 1, 2):
        out = attempt(opt.World(inst), config, start, log_verbosity=level,
                      max_iterations=4)
        rec.trace()
        rec.step(out.calls)
        rec.state((label, "level", level))
        if level == 0:
            rec.check(not out.result.log.get("iterations"), f"{label}/silent",
                      lambda: f"log verbosity 0 logged {out.result.log}",
                      nontrivial=level)
        else:
            kept[level] = frozen(out.result.log)
    rec.check(same(kept[1], kept[2]), f"{label}/levels",
              lambda: f"{kept}", nontrivial="levels")
    shared = opt.build(config, max_iterations=4, log_verbosity=1)
    runs = []
    for n in range(3):
        runs.append(opt.execute(opt.World(inst), shared,
                                start=geo.copy(start)))
        rec.trace()
        rec.state((label, "run", n))
        rec.check(all(same(frozen(out.result.log), kept[1])
                      for out in runs), f"{label}/fresh",
                  lambda: f"run {n + 1} on one optimizer: logs "
                  f"{[frozen(o.result.log) for o in runs]}", nontrivial=n)
    if config[:2] in ("nm", "ps"):
        population = config[:2] == "ps"
        cls = opt.CONFIGS[config][0]
        o = cls(verbosity=0, max_time=0.01, log_verbosity=1)
        out = opt.execute(opt.World(inst), o, start=None)
        told = out.result.log["stopping_criteria"]
        want = {"max_time": 0.01, "min_gradient_norm": 1e-6,
                "min_step_size": 1e-10,
                "max_cost_evaluations": max(5000 if population else 1000,
                                            2 * dim),
                "max_iterations": max(500 if population else 2000, 4 * dim)}
        rec.check(dict(told) == want, f"{label}/default-limits",
                  lambda: f"logged {told}, documented defaults {want}",
                  nontrivial="defaults")
