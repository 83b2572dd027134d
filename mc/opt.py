"""Controlled environment for optimizer runs.

A `World` owns everything an optimizer run depends on: the cost and gradient
answers (memoised per point, optionally chosen by the explorer), the Hessian,
the preconditioner, the random seed, the clock and standard output.
"""
import contextlib
import io
import time

import numpy as np

import pymanopt
from pymanopt import optimizers
from pymanopt.optimizers import line_search

from . import calculus, geo, zoo


# -- structure of points ----------------------------------------------------


def nest(args, layout):
    if isinstance(layout, (tuple, list)):
        out, i = [], 0
        for k in layout:
            out.append(args[i] if k == 1 else tuple(args[i:i + k]))
            i += k
        return out
    return args[0] if layout == 1 else tuple(args)


def unnest(value, layout):
    if isinstance(layout, (tuple, list)):
        out = []
        for part, k in zip(value, layout):
            out.extend([part] if k == 1 else list(part))
        return out
    return [value] if layout == 1 else list(value)


def key(x):
    return (np.round(zoo.flat(x), 11) + 0.0).tobytes()


# -- clock --------------------------------------------------------------------


class Clock:
    """Virtual time; only the environment's answers take time."""

    START = 1.0e6

    def __init__(self):
        self.now = self.START

    def tick(self, seconds):
        self.now += seconds

    @contextlib.contextmanager
    def installed(self):
        names = ("time", "perf_counter", "monotonic", "process_time")
        saved = {n: getattr(time, n) for n in names}
        try:
            for n in names:
                setattr(time, n, lambda: self.now)
            yield self
        finally:
            for n, f in saved.items():
                setattr(time, n, f)


# -- problems ---------------------------------------------------------------


class Cost:
    """Cost with exact ambient derivatives, bounded below."""

    def __init__(self, cost, grad, hess):
        self.cost, self.grad, self.hess = cost, grad, hess


def distance_cost(inst):
    """Convex quadratic in the ambient coordinates (works everywhere)."""
    r = zoo.rng(inst.name, "opt-cost")
    if inst.kind == "product":
        parts = [distance_cost(f) for f in inst.factors]
        return Cost(
            lambda x: sum(c.cost(p) for c, p in zip(parts, x)),
            lambda x: [c.grad(p) for c, p in zip(parts, x)],
            lambda x, e: [c.hess(p, q) for c, p, q in zip(parts, x, e)])
    if inst.kind == "fixedrank":
        c = calculus.FixedRank(inst.name, inst.mm, inst.nn)
        target = zoo.rnd(r, (inst.mm, inst.nn))

        def grad(x):
            u, s, vt = x
            g = (u * s) @ vt - target
            return g @ vt.T * s, np.diag(u.T @ g @ vt.T).copy(), (
                s[:, None] * (u.T @ g))

        return Cost(
            lambda x: 0.5 * float(np.sum(
                ((x[0] * x[1]) @ x[2] - target) ** 2)), grad, None)
    if calculus.quotient(inst):
        c = calculus.cost_for(inst)
        return Cost(c.cost, c.grad, c.hess)
    t = inst.join([inst.sl.rand(r) for _ in range(inst.k)])
    w = 0.5 + r.random(size=inst.shape)
    return Cost(
        lambda x: 0.5 * float(np.sum(w * np.abs(x - t) ** 2)),
        lambda x: w * (x - t),
        lambda x, e: w * e)


class World:
    """cost_choices(true, best, start) -> alternatives (beyond the truth)."""

    def __init__(self, inst, *, cost=None, chooser=None, costs=None,
                 grads=None, tick_cost=2.0**-10, tick_grad=2.0**-10, watch=(),
                 preconditioner=None, hessian=True, fresh=True):
        self.inst = inst
        self.manifold = inst.make() if fresh else inst.get()
        self.layout = self.manifold.point_layout
        self.source = cost or distance_cost(inst)
        self.chooser, self.costs, self.grads = chooser, costs, grads
        self.tick_cost, self.tick_grad = tick_cost, tick_grad
        self.clock = Clock()
        self.memo = {}
        self.gmemo = {}
        self.order = []          # fresh cost evaluations, in order
        self.calls = 0           # all cost evaluations
        self.gcalls = 0
        self.hcalls = 0
        self.events = []
        self.best = np.inf
        self.first = None
        self.hessian = hessian
        self.preconditioner = preconditioner
        self.on_cost = None
        for name in watch:
            self._watch(name)

    def _watch(self, name):
        original = getattr(self.manifold, name)

        def wrapper(*args, **kwargs):
            out = original(*args, **kwargs)
            self.events.append((name, args, out))
            return out

        setattr(self.manifold, name, wrapper)

    # answers
    def value(self, x):
        """The answer at x (must have been asked for before)."""
        return self.memo[key(x)]

    def cost(self, x):
        k = key(x)
        self.calls += 1
        self.clock.tick(self.tick_cost)
        if k not in self.memo:
            true = self.source.cost(x)
            answer = true
            if self.first is None:
                self.first = true
            elif self.costs is not None:
                options = self.costs(true, self.best, self.first)
                c = self.chooser.choose(1 + len(options), "cost")
                if c:
                    answer = options[c - 1]
            self.memo[k] = float(answer)
            self.order.append((geo.copy(x), float(answer)))
            if answer < self.best:
                self.best = float(answer)
        answer = self.memo[k]
        self.events.append(("cost", x, answer))
        if self.on_cost:
            self.on_cost(x)
        return answer

    def grad(self, x):
        k = key(x)
        self.gcalls += 1
        self.clock.tick(self.tick_grad)
        if k not in self.gmemo:
            g = self.source.grad(x)
            if self.grads is not None and self.gmemo:
                c = self.chooser.choose(1 + len(self.grads), "gradient")
                if c:
                    g = scale(self.grads[c - 1], g)
            self.gmemo[k] = g
        self.events.append(("grad", x, None))
        return self.gmemo[k]

    def problem(self):
        dec = pymanopt.function.numpy(self.manifold)
        lay = self.layout
        n = int(np.sum(lay))
        options = {}

        @dec
        def cost(*args):
            return self.cost(nest(args, lay))

        @dec
        def gradient(*args):
            g = self.grad(nest(args, lay))
            out = unnest(g, lay)
            return out[0] if lay == 1 else list(out)

        if self.hessian and self.source.hess is not None:
            @dec
            def hessian(*args):
                self.hcalls += 1
                h = self.source.hess(nest(args[:n], lay), nest(args[n:], lay))
                out = unnest(h, lay)
                return out[0] if lay == 1 else list(out)

            options["euclidean_hessian"] = hessian
        if self.preconditioner is not None:
            options["preconditioner"] = self.preconditioner
        return pymanopt.Problem(
            self.manifold, cost, euclidean_gradient=gradient, **options)

    # reference values
    def rgrad(self, x):
        g = self.gmemo[key(x)] if key(x) in self.gmemo else self.source.grad(x)
        return self.inst.get().euclidean_to_riemannian_gradient(x, g)

    def gnorm(self, x):
        return self.inst.norm(x, self.rgrad(x))


def scale(c, g):
    if isinstance(g, (list, tuple)):
        return type(g)([scale(c, p) for p in g])
    return c * g


def adversary(true, best, start):
    """Answers a cost function may give at a point away from the start."""
    s = max(1.0, abs(best)) if np.isfinite(best) else 1.0
    return [np.inf, np.nan, start + 1e3 * s, best, best - 1e-7 * s,
            best + 1e-9 * s, best - 3.0 * s]


def milder(true, best, start):
    """No NaN: for solvers that sort cost values."""
    return [a for a in adversary(true, best, start) if not np.isnan(a)]


# -- optimizer configurations -------------------------------------------------


BT = line_search.BackTrackingLineSearcher
AD = line_search.AdaptiveLineSearcher
RULES = ("FletcherReeves", "PolakRibiere", "HestenesStiefel", "HagerZhang",
         "LiuStorey")


def configs():
    out = {
        "sd": (optimizers.SteepestDescent, {}),
        "sd-bt2": (optimizers.SteepestDescent,
                   lambda: {"line_searcher": BT(max_iterations=2)}),
        "sd-bt-long": (optimizers.SteepestDescent, lambda: {
            "line_searcher": BT(initial_step_size=8, contraction_factor=0.3,
                                sufficient_decrease=0.3)}),
        "sd-ad": (optimizers.SteepestDescent,
                  lambda: {"line_searcher": AD()}),
        "sd-ad1": (optimizers.SteepestDescent,
                   lambda: {"line_searcher": AD(max_iterations=1,
                                                initial_step_size=5)}),
        "cg-bt": (optimizers.ConjugateGradient,
                  lambda: {"line_searcher": BT()}),
        "cg-orth": (optimizers.ConjugateGradient,
                    {"beta_rule": "PolakRibiere", "orth_value": 0.1}),
        "tr": (optimizers.TrustRegions, {}),
        "tr-rand": (optimizers.TrustRegions, {"use_rand": True}),
        "tr-greedy": (optimizers.TrustRegions, {
            "rho_prime": 0.0, "kappa": 0.5, "theta": 0.5,
            "rho_regularization": 1.0}),
        "nm": (optimizers.NelderMead, {}),
        "nm-odd": (optimizers.NelderMead, {
            "reflection": 0.8, "expansion": 1.6, "contraction": 0.3}),
        "pso": (optimizers.ParticleSwarm, {"population_size": 4}),
        "pso-odd": (optimizers.ParticleSwarm, {
            "population_size": 3, "nostalgia": 0.5, "social": 2.0}),
    }
    for rule in RULES:
        out[f"cg-{rule}"] = (
            optimizers.ConjugateGradient, {"beta_rule": rule})
    return out


CONFIGS = configs()
DESCENT = [n for n in CONFIGS if n[:2] in ("sd", "cg", "tr")]
LINE = [n for n in CONFIGS if n[:2] in ("sd", "cg")]
TRUST = [n for n in CONFIGS if n[:2] == "tr"]
POPULATION = [n for n in CONFIGS if n[:2] in ("nm", "ps")]


def build(config, **options):
    cls, extra = CONFIGS[config]
    extra = extra() if callable(extra) else dict(extra)
    extra.update(options)
    extra.setdefault("verbosity", 0)
    return cls(**extra)


def start_for(inst, config, which=0):
    """Initial point (a list of points for the population methods)."""
    pts = [p for n, p in inst.points(generic=3)]
    x = pts[-1 - which % min(3, len(pts))]
    if config[:2] not in ("nm", "ps"):
        return x
    count = int(inst.make().dim) + 1 if config[:2] == "nm" else (
        CONFIGS[config][1]["population_size"])
    out = [x]
    tv = inst.tangents(x, generic=4, maxbasis=10**6)
    for i in range(count - 1):
        v = tv[i % len(tv)][1]
        out.append(inst.get().retraction(x, (0.5 + 0.1 * (i // len(tv))) * v))
    return out


class Run:
    pass


def execute(world, optimizer, *, start, seed=3, problem=None, **kwargs):
    """One controlled run; exceptions propagate."""
    out = Run()
    out.world = world
    problem = problem or world.problem()
    np.random.seed(seed)
    buffer = io.StringIO()
    out.t0 = world.clock.now
    out.calls0 = world.calls
    with world.clock.installed(), contextlib.redirect_stdout(buffer):
        out.result = optimizer.run(problem, initial_point=start, **kwargs)
    out.t1 = world.clock.now
    out.calls = world.calls - out.calls0
    out.printed = buffer.getvalue()
    log = out.result.log
    out.log = None if log is None else log.get("iterations")
    return out


class RecordingSearcher:
    """Wraps a line searcher; survives the optimizers' deep copy."""

    def __init__(self, inner, record):
        self.inner, self.record = inner, record

    def __deepcopy__(self, memo):
        import copy

        return RecordingSearcher(copy.deepcopy(self.inner, memo), self.record)

    def search(self, objective, manifold, x, d, f0, df0):
        entry = {"x": geo.copy(x), "d": geo.copy(d), "f0": f0, "df0": df0}
        entry["before"] = self.record["probe"]() if "probe" in self.record \
            else None
        self.record["calls"].append(entry)
        step, newx = self.inner.search(objective, manifold, x, d, f0, df0)
        entry["step"], entry["newx"] = step, geo.copy(newx)
        return step, newx


def same_point(a, b, tol=1e-9):
    return zoo.gap(a, b) <= tol * max(1.0, zoo.nrm(a))


def close(a, b, tol=1e-9):
    if np.isnan(a) or np.isnan(b):
        return bool(np.isnan(a) and np.isnan(b))
    if np.isinf(a) or np.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


ASSUME = [
    "the environment is a memoised function of the point: asked twice, it "
    "answers the same",
    "time advances only through the environment's answers",
    "adversarial answers are explored up to the stated number of deviations "
    "from the true cost, within the stated number of evaluations",
    "manifold operations are those decided by C01-C16",
]


class OwnSphere(pymanopt.manifolds.manifold.Manifold):
    """A user's manifold with no more than the optimizers document to need."""

    def __init__(self, n):
        self._n = n
        super().__init__(f"own sphere in {n} dimensions", n - 1)

    def inner_product(self, point, tangent_vector_a, tangent_vector_b):
        return float(tangent_vector_a @ tangent_vector_b)

    def norm(self, point, tangent_vector):
        return float(np.sqrt(tangent_vector @ tangent_vector))

    def projection(self, point, vector):
        return vector - (point @ vector) * point

    def euclidean_to_riemannian_gradient(self, point, euclidean_gradient):
        return self.projection(point, euclidean_gradient)

    def euclidean_to_riemannian_hessian(self, point, euclidean_gradient,
                                        euclidean_hessian, tangent_vector):
        return self.projection(point, euclidean_hessian - (
            point @ euclidean_gradient) * tangent_vector)

    def to_tangent_space(self, point, vector):
        return self.projection(point, vector)

    def embedding(self, point, tangent_vector):
        return tangent_vector

    def retraction(self, point, tangent_vector):
        y = point + tangent_vector
        return y / np.linalg.norm(y)

    def transport(self, point_a, point_b, tangent_vector_a):
        return self.projection(point_b, tangent_vector_a)

    def zero_vector(self, point):
        return np.zeros(self._n)

    def random_point(self):
        return self.retraction(np.zeros(self._n),
                               np.random.normal(size=self._n))

    def random_tangent_vector(self, point):
        v = self.projection(point, np.random.normal(size=self._n))
        return v / self.norm(point, v)


def _own():
    return zoo.Inst("own", lambda: OwnSphere(3), zoo.SphereS((3,)),
                    second_order=True,
                    lacks=("exp", "log", "dist", "pair_mean"))


def _insts():
    pd = "SymmetricPositiveDefinite"
    return {
        "line": zoo._euclid(1),
        "plane": zoo._euclid(2),
        "sphere": zoo._sphere(3),
        "own": _own(),
        "stiefel": zoo._stiefel(3, 2),
        "pd": zoo._pd(pd, 2),
        "product": zoo.ProductInst([zoo._sphere(3), zoo._euclid(2)]),
        "product1": zoo.ProductInst([zoo._euclid(2)]),
        "grassmann": zoo._grass(3, 1, 1, True),
        "circle": zoo._circle(2),
        "hyperbolic": zoo._poincare(2),
        "unitary": zoo._group(2, 1, "qr", True),
        "oblique": zoo._oblique(2, 2),
        "fixedrank": zoo.FixedRankInst(4, 3, 2),
        "elliptope": zoo._ell(3, 2),
        "mixed": zoo.ProductInst(
            [zoo._euclid(2), zoo.FixedRankInst(3, 3, 1)]),
    }


_INSTS = {}


def inst(name):
    if not _INSTS:
        _INSTS.update(_insts())
    return _INSTS[name]


def supports(name, config):
    """Whether the manifold has the operations the optimizer documents."""
    lacks = inst(name).lacks
    if name in ("unitary", "pd") and config[:2] in ("nm", "ps"):
        return False
    if config[:2] == "tr":
        return "hessian" not in lacks
    if config[:2] == "cg":
        return "transport" not in lacks
    if config[:2] == "nm":
        return not lacks & {"log", "dist", "pair_mean"}
    if config[:2] == "ps":
        return not lacks & {"log", "transport"}
    return True


def adversarial_runs(rec, name, config, *, deviations, depth, costs=None,
                     grads=None, options=None, limit=20000, watch=()):
    """Every run of a configuration under deviating answers."""
    from . import core

    i = inst(name)
    start = start_for(i, config)
    if costs is None:
        costs = milder if config[:2] in ("nm", "ps") else adversary
    opts = {"max_iterations": 6, "log_verbosity": 1}
    opts.update(options or {})

    def run(chooser):
        world = World(i, chooser=chooser, costs=costs, grads=grads,
                      watch=watch)
        return execute(world, build(config, **opts), start=geo.copy(start))

    for choices, out in core.explore(
            run, deviations=deviations, max_depth=depth, limit=limit):
        rec.trace()
        rec.step(out.calls)
        rec.state((name, config, choices))
        yield choices, out
