"""Runs are independent of each other."""
import itertools

import numpy as np

from .. import core, geo, opt, zoo

ID = "C24"
LEVEL = "model_checking"
RULE = (
    "state = history of runs on one optimizer object: every sequence of up to "
    "L earlier runs drawn from problems of different type, dimension and "
    "start, followed by every target run; plus runs nested inside the cost "
    "function of another run and optimizers sharing one line searcher; the "
    "result and the log must equal those of a fresh optimizer, bit for bit"
)
ASSUMPTIONS = opt.ASSUME
PROBLEMS = ("line", "sphere", "product", "plane")
GRADIENT_ONLY = ("fixedrank", "stiefel")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for config in opt.CONFIGS:
        names = [n for n in PROBLEMS + GRADIENT_ONLY
                 if opt.supports(n, config)]
        if config[:2] == "nm":
            names = ["line", "plane", "sphere"]
        for target in names:
            out.append({"id": f"{config}/{target}", "config": config,
                        "names": names, "target": target, "deep": deep,
                        "depth": 3 if deep and config[:2] != "nm" else 2})
    # defaults that depend on the problem
    for config in ("nm-default", "pso-default"):
        for target in ("line", "plane", "sphere"):
            out.append({"id": f"{config}/{target}", "config": config,
                        "names": ["line", "plane", "sphere"],
                        "target": target, "depth": 1, "deep": deep})
    return out


def build(config, **options):
    from pymanopt import optimizers

    if config == "nm-default":
        # the derived limits themselves are far away: end by time
        return optimizers.NelderMead(verbosity=0, log_verbosity=1,
                                     max_time=0.02)
    if config == "pso-default":
        return optimizers.ParticleSwarm(verbosity=0, log_verbosity=1,
                                        max_time=0.05)
    return opt.build(config, max_iterations=options.pop("n", 6),
                     log_verbosity=1, **options)


def start(config, name, mode):
    if mode == "random":
        return None
    if config.endswith("default"):
        if config == "pso-default":
            return None
        config = "nm"
    return opt.start_for(opt.inst(name), config, 1)


def snapshot(out):
    r = out.result
    log = {k: v for k, v in (out.log or {}).items() if k != "time"}
    return {
        "point": geo.copy(r.point), "cost": r.cost,
        "iterations": r.iterations,
        "stop": r.stopping_criterion, "evals": r.cost_evaluations,
        "step": r.step_size, "gnorm": r.gradient_norm, "time": r.time,
        "log": {k: [geo.copy(x) for x in v] for k, v in log.items()},
        "limits": dict(r.log["stopping_criteria"]),
        "asked": [(geo.copy(x), v) for x, v in out.world.order],
    }


def same(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(
            same(p, q) for p, q in zip(a, b))
    if isinstance(a, str) or a is None or isinstance(b, str) or b is None:
        return a == b
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def difference(a, b):
    return {k: (a[k], b[k]) for k in a
            if k not in ("asked", "log") and not same(a[k], b[k])} or [
                k for k in a if not same(a[k], b[k])]


def one(config, optimizer, name, mode, seed=11, world=None, **kwargs):
    w = world or opt.World(opt.inst(name))
    s = start(config, name, mode)
    before = geo.copy(s)
    identity = [id(p) for p in s] if isinstance(s, list) else None
    state = np.random.get_state()
    out = opt.execute(w, optimizer, start=s, seed=seed, **kwargs)
    np.random.set_state(state)
    out.untouched = s is None or (
        len(s) == len(before) and same(s, before) and (
            identity is None or identity == [id(p) for p in s]))
    return out


def run_case(case, rec):
    config, target = case["config"], case["target"]
    label = case["id"]
    modes = ("given", "random")
    want = {}
    for mode in modes:
        fresh = build(config)
        out = one(config, fresh, target, mode)
        want[mode] = snapshot(out)
        rec.check(out.untouched, f"{label}/caller-data",
                  lambda: f"{mode}: the initial point was modified")
        again = snapshot(one(config, build(config), target, mode))
        rec.check(same(want[mode], again), f"{label}/repeatable",
                  lambda: f"{mode}: {difference(want[mode], again)}",
                  nontrivial=mode)
        # nothing of an earlier result changes when later runs happen
        kept = out
        for name in case["names"]:
            one(config, fresh, name, "given")
        rec.check(same(snapshot(kept), want[mode]), f"{label}/earlier-result",
                  lambda: f"{mode}: a later run changed an earlier result: "
                  f"{difference(want[mode], snapshot(kept))}",
                  nontrivial=mode)
    if config in opt.CONFIGS:
        # other seeds give other random starts
        other = snapshot(one(config, build(config), target, "random",
                             seed=12))
        rec.check(not same(other["asked"], want["random"]["asked"]),
                  f"{label}/random-start",
                  lambda: "different seeds, same start", nontrivial="seed")
    # (problem, start, reuse) alphabets of earlier runs
    earlier = [(n, m) for n in case["names"] for m in modes]
    for length in range(1, case["depth"] + 1):
        pool = earlier if length == 1 or case["deep"] and length == 2 else [
            e for e in earlier if e[1] == "given"]
        for history in itertools.product(pool, repeat=length):
            shared = build(config)
            if length > 1 and config[:2] == "nm" and history[0][1] != "given":
                continue
            for name, m in history:
                one(config, shared, name, m, seed=5)
            for mode in modes:
                got = snapshot(one(config, shared, target, mode))
                rec.trace()
                rec.step(length + 1)
                rec.state((label, history, mode))
                rec.check(
                    same(got, want[mode]), f"{label}/history",
                    lambda: f"{mode} start after {history}: (fresh, used) "
                    f"{difference(want[mode], got)}",
                    nontrivial=(history, mode))
                rec.outcome(got["stop"].split(" reached")[0])
    # interruption: an earlier run died half way
    class Stop(Exception):
        pass

    for name in case["names"]:
        for after in (1, 2, 4, 7):
            shared = build(config)
            w = opt.World(opt.inst(name))

            def crash(x, w=w, after=after):
                if w.calls >= after:
                    raise Stop()

            w.on_cost = crash
            try:
                one(config, shared, name, "given", world=w)
            except Stop:
                pass
            for mode in modes:
                got = snapshot(one(config, shared, target, mode))
                rec.trace()
                rec.state((label, "crash", name, after, mode))
                rec.check(
                    same(got, want[mode]), f"{label}/after-crash",
                    lambda: f"{mode} start after a run on {name} that raised "
                    f"at evaluation {after}: {difference(want[mode], got)}",
                    nontrivial=(name, after, mode))
    # nested: the cost function of the target runs another optimizer
    if config in opt.LINE + opt.TRUST or config[:3] == "pso":
        for other in ("sd", "cg-HestenesStiefel", "tr", "pso"):
            if not opt.supports("line", other):
                continue
            w = opt.World(opt.inst(target))

            def nested(x, other=other):
                one(other, opt.build(other, max_iterations=2), "line",
                    "given")

            w.on_cost = nested
            got = snapshot(one(config, build(config), target, "given",
                               world=w))
            rec.trace()
            rec.check(
                same(got, want["given"]), f"{label}/nested",
                lambda: f"with {other} running inside the cost function: "
                f"{difference(want['given'], got)}", nontrivial=other)
    # the options of the constructor stay those of the caller
    if config in opt.LINE:
        share(case, rec, label, want)


def share(case, rec, label, want):
    """Two optimizers built around one line searcher object."""
    config, target = case["config"], case["target"]
    default = opt.build(config, max_iterations=2)
    one(config, default, target, "given")
    kind = type(default.line_searcher)
    for a, b in itertools.product(case["names"], repeat=2):
        searcher = kind()
        state = dict(vars(searcher))
        alone = snapshot(one(
            config, build(config, line_searcher=kind()), target, "given"))
        first = build("sd", line_searcher=searcher)
        second = build(config, line_searcher=searcher)
        one("sd", first, a, "given")
        one(config, second, b, "given")
        got = snapshot(one(config, second, target, "given"))
        rec.trace()
        rec.state((label, "share", a, b))
        rec.check(same(got, alone), f"{label}/shared-searcher",
                  lambda: f"after {a} and {b}: {difference(alone, got)}",
                  nontrivial=(a, b))
        rec.check(dict(vars(searcher)) == state, f"{label}/searcher-mutated",
                  lambda: f"{state} became {vars(searcher)}",
                  nontrivial=(a, b))
    # reusing the line searcher is opt-in
    fresh = build(config)
    one(config, fresh, case["names"][0], "given", reuse_line_searcher=True)
    got = snapshot(one(config, fresh, target, "given"))
    rec.check(same(got, want["given"]), f"{label}/reuse-opt-in",
              lambda: f"{difference(want['given'], got)}")
    got = snapshot(one(config, build(config), target, "given",
                       reuse_line_searcher=True))
    rec.check(same(got, want["given"]), f"{label}/reuse-first",
              lambda: f"{difference(want['given'], got)}")
    # a reused searcher starts where the same searcher left off
    fresh, again = build(config), build(config)
    runs = []
    for o in (fresh, again):
        one(config, o, target, "given")
        runs.append(snapshot(one(config, o, target, "given",
                                 reuse_line_searcher=True)))
    rec.check(same(*runs), f"{label}/reuse-repeatable",
              lambda: f"{difference(*runs)}")
