"""Options that are left out."""
import contextlib
import io
import itertools
import re

import numpy as np
import pymanopt
import pymanopt.manifolds as pm
from pymanopt import optimizers
from pymanopt.optimizers import line_search

from .. import geo, opt, zoo

ID = "C39"
LEVEL = "model_checking"
RULE = (
    "state = (class, set of options given, the rest left out, how they are "
    "given, scenario); every set of at most two options (thorough: every "
    "set), by name, and every prefix by position, run against the same "
    "controlled environment and compared exactly with the run in which all "
    "published defaults are given by name"
)
ASSUMPTIONS = opt.ASSUME + [
    "a published default is the value in the signature of the constructor "
    "at the pinned commit",
]
COMMON = {"max_time": 1000, "max_iterations": 1000,
          "min_gradient_norm": 1e-6, "min_step_size": 1e-10,
          "max_cost_evaluations": 5000, "verbosity": 2, "log_verbosity": 0}
POPULATION = {k: v for k, v in COMMON.items()
              if k not in ("max_iterations", "max_cost_evaluations")}
# class -> (positional options, options by name only)
OPTIMIZERS = {
    "SteepestDescent": ({"line_searcher": None}, COMMON),
    "ConjugateGradient": ({"beta_rule": "HestenesStiefel",
                           "orth_value": np.inf, "line_searcher": None},
                          COMMON),
    "TrustRegions": ({"miniter": 3, "kappa": 0.1, "theta": 1.0,
                      "rho_prime": 0.1, "use_rand": False,
                      "rho_regularization": 1e3}, COMMON),
    "NelderMead": ({"max_cost_evaluations": None, "max_iterations": None,
                    "reflection": 1, "expansion": 2, "contraction": 0.5},
                   POPULATION),
    "ParticleSwarm": ({"max_cost_evaluations": None, "max_iterations": None,
                       "population_size": None, "nostalgia": 1.4,
                       "social": 1.4}, POPULATION),
}
SEARCHERS = {
    "BackTrackingLineSearcher": {
        "contraction_factor": 0.5, "optimism": 2, "sufficient_decrease": 1e-4,
        "max_iterations": 25, "initial_step_size": 1},
    "AdaptiveLineSearcher": {
        "contraction_factor": 0.5, "sufficient_decrease": 0.5,
        "max_iterations": 10, "initial_step_size": 1},
}
SHARES = (0.9e-4, 0.99e-4, 1.01e-4, 1.1e-4, 1e-3, 0.1, 0.4, 0.49, 0.499,
          0.501, 0.51, 0.6, 1.0, 1.5, -0.1)
# options of a run
RUN = {"SteepestDescent": {"reuse_line_searcher": False},
       "ConjugateGradient": {"reuse_line_searcher": False},
       "TrustRegions": {"mininner": 1, "maxinner": None, "Delta_bar": None,
                        "Delta0": None},
       "NelderMead": {}, "ParticleSwarm": {}}
# scenarios: (options kept fixed, environment)
SCENARIOS = {
    "plain": {"fixed": {"max_iterations": 12}},
    "random": {"fixed": {"max_iterations": 5}, "random": True},
    "bad": {"fixed": {"max_iterations": 12}, "bad": True},
    "iterations": {"fixed": {"min_gradient_norm": 0.0, "min_step_size": 0.0},
                   "world": "line"},
    "time": {"fixed": {"min_gradient_norm": 0.0, "min_step_size": 0.0,
                       "max_iterations": 10**5}, "tick": 0.75},
    "ratios": {"fixed": {"max_iterations": 16}, "ratios": True},
    "noise": {"fixed": {"max_iterations": 16, "min_gradient_norm": 0.0},
              "noise": True},
    "gradient": {"fixed": {"min_step_size": 0.0}, "slow": True},
    "step": {"fixed": {"min_gradient_norm": 0.0}, "steps": True},
}


class Geometric:
    """A user's line searcher taking ever shorter steps."""

    def __init__(self, factor=0.7):
        self.step, self.factor = 1e-3, factor

    def search(self, objective, manifold, x, d, f0, df0):
        self.step *= self.factor
        return self.step, manifold.retraction(
            x, (self.step / manifold.norm(x, d)) * d)


def subsets(names, deep):
    limit = (len(names) if len(names) <= 8 else 3) if deep else 2
    out = []
    for r in list(range(limit + 1)) + [len(names) - 1]:
        for s in itertools.combinations(names, r):
            if s not in out:
                out.append(s)
    return out


def cases(tier):
    deep = tier == "thorough"
    out = []
    for name in OPTIMIZERS:
        pop = name in ("NelderMead", "ParticleSwarm")
        for scenario in SCENARIOS:
            if pop and scenario in ("gradient", "step"):
                continue
            if name == "TrustRegions" and scenario == "step":
                continue
            if scenario in ("ratios", "noise") and name != "TrustRegions":
                continue
            for world in ("plane", "sphere", "product"):
                if scenario in ("iterations", "time", "gradient", "step") and (
                        world != "plane"):
                    continue
                out.append({"id": f"{name}/{scenario}/{world}",
                            "kind": "optimizer", "class": name,
                            "scenario": scenario, "world": world,
                            "deep": deep})
    for name in SEARCHERS:
        for world in ("plane", "sphere", "product"):
            for bad in (False, True):
                out.append({"id": f"{name}/{world}/{bad}",
                            "kind": "searcher", "class": name,
                            "world": world, "bad": bad, "deep": deep})
    out += [{"id": f"{name}/derived/{d}", "kind": "derived", "class": name,
             "dim": d, "deep": deep}
            for name in DERIVED for d in DIMENSIONS]
    out += [{"id": f"manifold/{i}", "kind": "manifold", "index": i}
            for i in range(len(manifolds()))]
    return out


def run_case(case, rec):
    {"optimizer": optimizer, "searcher": searcher, "derived": derived,
     "manifold": manifold}[case["kind"]](case, rec)


# -- optimizers --------------------------------------------------------------


def anisotropic():
    """Slow for a gradient method, and never flat along the way."""
    w = np.array([1.0, 60.0])
    return opt.Cost(lambda x: 0.5 * float(np.sum(w * x * x)),
                    lambda x: w * x, lambda x, e: w * e)


def valley():
    """Goes down for ever."""
    return opt.Cost(lambda x: float(np.sum(np.log1p(np.exp(-x)))),
                    lambda x: -1 / (1 + np.exp(x)),
                    lambda x, e: np.exp(x) / (1 + np.exp(x)) ** 2 * e)


def observe(case, make, run_options):
    """Everything a user sees of one run."""
    scenario = SCENARIOS[case["scenario"]]
    name = case["class"]
    inst = opt.inst(scenario.get("world", case["world"]))
    pop = name in ("NelderMead", "ParticleSwarm")
    options = {}
    if scenario.get("bad"):
        count = [0]

        def costs(true, best, start):
            count[0] += 1
            if count[0] % 3 == 1:
                return [np.inf if count[0] % 2 else start + 1.0]
            return []

        options["costs"] = costs
        options["chooser"] = Last()
    if scenario.get("ratios"):
        # a share of the decrease that the model promised
        turn = itertools.cycle((0.12, 0.8, 0.18, 0.05, 0.3, 0.22, 0.7, 0.09))
        options["costs"] = lambda true, best, start: [
            best - next(turn) * (best - true)]
        options["chooser"] = Last()
    if scenario.get("noise"):
        # around the accuracy of the cost
        turn = itertools.cycle((1e-13, -1e-13, 3e-14, 0.0))
        options["costs"] = lambda true, best, start: [
            true + next(turn) * max(1.0, abs(true))]
        options["chooser"] = Last()
    if scenario.get("slow"):
        options["cost"] = anisotropic()
    if scenario.get("world") == "line" and not pop:
        options["cost"] = valley()
    if "tick" in scenario:
        options["tick_cost"] = options["tick_grad"] = scenario["tick"]
    start = None
    if not scenario.get("random") and name != "ParticleSwarm":
        start = geo.copy(opt.start_for(inst, "nm" if pop else "sd"))
    solver, told = make(), {}
    # what the optimizer does again tells which state it kept
    for k in range(2 if case["scenario"] == "plain" and not pop else 1):
        if k:
            base = opt.distance_cost(inst)
            options["cost"] = opt.Cost(
                lambda x: base.cost(x) - 100.0, base.grad, base.hess)
        world = opt.World(inst, **options)
        out = opt.execute(world, solver, start=geo.copy(start), **run_options)
        told.update((f"{key}{k}", v) for key, v in tell(out, world).items())
    return told


def tell(out, world):
    r = out.result
    log = r.log or {}
    return {
        "point": geo.copy(r.point), "cost": r.cost,
        "iterations": r.iterations, "stop": r.stopping_criterion,
        "evaluations": r.cost_evaluations, "step": r.step_size,
        "gradient": r.gradient_norm, "time": r.time,
        "asked": [zoo.flat(x) for x, _ in world.order],
        "calls": (world.calls, world.gcalls, world.hcalls),
        "printed": out.printed, "log": sorted(log),
        "entries": [len(v) for v in (out.log or {}).values()],
    }


class Last:
    """Always answers the last alternative."""

    def choose(self, n, label=""):
        return n - 1


def same(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(
            same(p, q) for p, q in zip(a, b))
    if isinstance(a, str) or a is None or isinstance(b, str) or b is None:
        return a == b
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def differ(want, got):
    return [k for k in want if not same(want[k], got[k])]


def optimizer(case, rec):
    name = case["class"]
    cls = getattr(optimizers, name)
    scenario = SCENARIOS[case["scenario"]]
    positional, named = OPTIMIZERS[name]
    fixed = {k: v for k, v in scenario["fixed"].items()
             if k in positional or k in named}
    quick = case["scenario"] in ("plain", "bad")
    if scenario.get("world") or "tick" in scenario:
        if name == "ParticleSwarm":
            fixed["population_size"] = 3
    if scenario.get("steps"):
        fixed["line_searcher"] = Geometric
    defaults = {**positional, **named}
    free = [k for k in defaults if k not in fixed]

    def build(given, count=0):
        values = {**defaults, **fixed}
        args = [values[k] for k in list(positional)[:count]]
        kwargs = {k: values[k] for k in values
                  if (k in given or k in fixed)
                  and k not in list(positional)[:count]}
        args = [v() if v is Geometric else v for v in args]
        kwargs = {k: v() if v is Geometric else v for k, v in kwargs.items()}
        return lambda: cls(*args, **kwargs)

    want = observe(case, build(free), RUN[name])
    rec.outcome(want["stop0"].split(" reached")[0])
    slow = name == "NelderMead" and not quick or (
        case["scenario"] in ("iterations", "time"))
    sets = [(), *((k,) for k in free)] if slow else (
        subsets(free, case["deep"] and quick))
    plans = [(s, 0, {}) for s in sets]
    plans += [((), k, {}) for k in range(1, len(positional) + 1)]
    plans += [((), 0, {k: v}) for k, v in RUN[name].items()]
    for given, count, run_options in plans:
        got = observe(case, build(given, count), run_options)
        rec.trace()
        rec.step(got["calls0"][0])
        rec.state((case["id"], given, count, sorted(run_options)))
        diff = differ(want, got)
        rec.check(
            not diff, f"{case['id']}/default",
            lambda: f"given {given}, {count} by position, {run_options} to "
            f"run: {diff} differ: "
            f"{[(want[k], got[k]) for k in diff if 'asked' not in k][:3]}"[:900],
            nontrivial=(given, count, sorted(run_options)))


# -- budgets that depend on the dimension --------------------------------------

DERIVED = {
    "NelderMead": lambda d: {
        "max_cost_evaluations": max(1000, 2 * d),
        "max_iterations": max(2000, 4 * d)},
    "ParticleSwarm": lambda d: {
        "max_cost_evaluations": max(5000, 2 * d),
        "max_iterations": max(500, 4 * d),
        "population_size": min(40, 10 * d)},
}
DIMENSIONS = (1, 2, 3, 4, 5, 124, 126, 130, 499, 501, 503, 2499, 2501)


def derived(case, rec):
    name, d = case["class"], case["dim"]
    cls = getattr(optimizers, name)
    man = pm.Euclidean(d)
    cost = pymanopt.function.numpy(man)(lambda x: float(x @ x))
    problem = pymanopt.Problem(man, cost)
    named = DERIVED[name](d)

    def observe(given, extra):
        np.random.seed(5)
        r = cls(**{k: named[k] for k in given}, **extra, verbosity=0,
                log_verbosity=1).run(problem)
        told = {"point": r.point, "cost": r.cost,
                "iterations": r.iterations,
                "evaluations": r.cost_evaluations,
                "stop": re.sub(r"[\d.]+ seconds", "", r.stopping_criterion)}
        for k, v in r.log.items():
            if isinstance(v, dict) and k != "iterations":
                told.update((f"{k}/{key}", str(x)) for key, x in v.items())
        return told

    # at once; when the evaluations are used up; when the iterations are
    extras = [{"max_time": 0}]
    if d <= 2:
        swarm = name == "ParticleSwarm"
        extras.append({"max_time": 1e6})
        if swarm or d == 1 and case["deep"]:
            extras.append({"max_time": 1e6, "max_cost_evaluations": 10**9,
                           **({"population_size": 2} if swarm else {})})
    for extra in extras:
        free = [k for k in named if k not in extra]
        want = observe(free, extra)
        rec.outcome(want["stop"].split(" reached")[0])
        for given in subsets(free, True):
            got = observe(given, extra)
            diff = differ(want, got)
            rec.trace()
            rec.step(got["iterations"])
            rec.state((case["id"], given, sorted(extra)))
            rec.check(
                not diff, f"{case['id']}/default",
                lambda: f"{extra}, given {given}: {diff} differ from the run "
                f"with {named}: {[(want[k], got[k]) for k in diff][:3]}"[:900],
                nontrivial=(given, sorted(extra)))
            if d <= 2 and name == "NelderMead" and "max_time" in extra and (
                    extra["max_time"]) and not case["deep"]:
                break  # the first one gives nothing


# -- line searchers ------------------------------------------------------------


def searcher(case, rec):
    """Three searches in a row by the same searcher."""
    cls = getattr(line_search, case["class"])
    defaults = SEARCHERS[case["class"]]
    inst = opt.inst(case["world"])
    man = inst.get()
    x0 = opt.start_for(inst, "sd")
    cost = opt.distance_cost(inst)

    def observe(make):
        """What is asked and answered for four kinds of searches."""
        out = []
        plans = [(size, bad, None) for size in (1.0, 1e-3, 40.0)
                 for bad in ((0, 1, 3, 8, 12, 30) if case["bad"] else (0,))]
        if case["world"] == "plane":
            plans += [(1.0, 0, share) for share in SHARES]
        for size, bad, share in plans:
            s = make()
            x = geo.copy(x0)
            for k in range(3):
                f0 = cost.cost(x)
                g = man.euclidean_to_riemannian_gradient(x, cost.grad(x))
                d = -size * g
                df0 = man.inner_product(x, g, d)
                asked = []

                def objective(y):
                    asked.append(zoo.flat(y))
                    if share is not None:
                        # exactly this share of the slope
                        along = zoo.nrm(y - x) / zoo.nrm(d)
                        return f0 + share * along * df0
                    if len(asked) <= bad:
                        return f0 + 1.0
                    return cost.cost(y)

                step, x = s.search(objective, man, x, d, f0, df0)
                out += [step, zoo.flat(x), *asked]
        return out

    values = list(defaults.items())
    want = observe(lambda: cls(**defaults))
    plans = [(s, 0) for s in subsets(list(defaults), True)]
    plans += [((), k) for k in range(1, len(values) + 1)]
    for given, count in plans:
        got = observe(lambda: cls(*[v for _, v in values[:count]],
                                  **{k: defaults[k] for k in given}))
        rec.trace()
        rec.step(len(got))
        rec.state((case["id"], given, count))
        rec.check(same(want, got), f"{case['id']}/default",
                  lambda: f"given {given}, {count} by position: searches "
                  "differ from those with every default given",
                  nontrivial=(given, count))


# -- manifolds ---------------------------------------------------------------


def manifolds():
    """(instance, required arguments, options)."""
    pd = ("SymmetricPositiveDefinite", "HermitianPositiveDefinite",
          "SpecialHermitianPositiveDefinite")
    out = [
        (zoo._stiefel(3, 2), (3, 2), {"k": 1, "retraction": "qr"}),
        (zoo._stiefel(3, 3), (3, 3), {"k": 1, "retraction": "qr"}),
        (zoo._group(3), (3,), {"k": 1, "retraction": "qr"}),
        (zoo._group(2, 1, "qr", True), (2,), {"k": 1, "retraction": "qr"}),
        (zoo._grass(4, 2), (4, 2), {"k": 1}),
        (zoo._grass(3, 1, 1, True), (3, 1), {"k": 1}),
        (zoo._poincare(2), (2,), {"k": 1}),
        (zoo._positive(2, 2), (2, 2),
         {"k": 1, "use_parallel_transport": False}),
        (zoo._symm(3), (3,), {"k": 1}),
        (zoo._skew(3), (3,), {"k": 1}),
        (zoo._circle(1), (), {"n": 1}),
    ]
    out += [(zoo._pd(c, 2), (2,), {"k": 1}) for c in pd]
    return out


def attempt(f):
    try:
        return f()
    except (NotImplementedError, AttributeError) as e:
        return type(e).__name__


def operations(man, inst, rec):
    out = {"dim": man.dim, "name": str(man),
           "typical": attempt(lambda: man.typical_dist),
           "layout": man.point_layout}
    np.random.seed(5)
    x = out["random"] = man.random_point()
    out["vector"] = man.random_tangent_vector(x)
    points = inst.points(generic=3)
    for i, (label, x) in enumerate(points):
        y = points[i - 1][1]
        vectors = inst.tangents(x, generic=1)
        out[f"zero{i}"] = man.zero_vector(x)
        for name in ("dist", "log", "pair_mean"):
            if name not in inst.lacks:
                out[f"{name}{i}"] = attempt(lambda: getattr(man, name)(x, y))
        for j, (_, v) in enumerate(vectors):
            u = vectors[j - 1][1]
            e = inst.get().embedding(x, v)
            key = f"{i}.{j}"
            rec.step(8)
            plan = {
                "inner": lambda: man.inner_product(x, u, v),
                "norm": lambda: man.norm(x, v),
                "projection": lambda: man.projection(x, e),
                "tangent": lambda: man.to_tangent_space(x, e),
                "embedding": lambda: man.embedding(x, v),
                "retraction": lambda: man.retraction(x, v),
                "exp": lambda: man.exp(x, v),
                "transport": lambda: man.transport(x, y, v),
                "gradient":
                    lambda: man.euclidean_to_riemannian_gradient(x, e),
                "hessian": lambda: man.euclidean_to_riemannian_hessian(
                    x, e, e, v),
                "weingarten": lambda: man.weingarten(x, v, e - man.projection(
                    x, e)),
            }
            for name, f in plan.items():
                out[name + key] = attempt(f)
    return out


def manifold(case, rec):
    inst, required, options = manifolds()[case["index"]]
    cls = type(inst.make())
    with contextlib.redirect_stdout(io.StringIO()):
        want = operations(cls(*required, **options), inst, rec)
    for r in range(len(options) + 1):
        for given in itertools.combinations(options, r):
            got = operations(
                cls(*required, **{k: options[k] for k in given}), inst, rec)
            rec.trace()
            rec.state((inst.name, given))
            diff = differ(want, got)
            rec.check(not diff, f"manifold/{cls.__name__}/default",
                      lambda: f"{cls.__name__}{required}, given {given}: "
                      f"{diff[:6]} differ from those with every default "
                      "given", nontrivial=(inst.name, given))
