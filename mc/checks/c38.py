"""Equivalent formulations of a problem lead to equivalent runs."""
import numpy as np

from .. import core, geo, opt, zoo

ID = "C38"
LEVEL = "model_checking"
RULE = (
    "state = (pair of isometric formulations of one problem, optimizer "
    "configuration, answer sequence); both formulations are run on the real "
    "optimizer under the same answers and compared evaluation by evaluation: "
    "points (through the isometry), costs, step sizes, gradient norms, "
    "counts, log and printed rows"
)
ASSUMPTIONS = opt.ASSUME + [
    "the isometry maps retractions and transports of one formulation to those "
    "of the other (all pairs share them)",
    "runs are compared up to relative round-off of 1e-6; a run is followed "
    "until two costs it compares agree to 1e-9 without being equal",
    "random tangent vectors of one formulation are the images of those of "
    "the other",
    "Nelder-Mead, whose centroids are computed by a truncated iteration, is "
    "compared to 5e-2 for the first evaluations, until two costs agree to 0.1",
]

# quick tier: every configuration on these pairs, these on every pair
ALL = ("rotate space", "stacked frames")
MAIN = ("sd", "sd-ad", "cg-HestenesStiefel", "cg-orth", "tr", "tr-rand",
        "nm", "pso")


class Pair:
    """Linear isometry `push` from formulation a to formulation b."""

    def __init__(self, name, a, b, push, pull, back, move):
        self.name, self.a, self.b = name, a, b
        self.push, self.pull, self.back = push, pull, back
        self.move = move  # of tangent vectors


def orthogonal(n, *tag):
    q, _ = np.linalg.qr(zoo.rng("c38", n, *tag).normal(size=(n, n)))
    return q


def pairs():
    out = []

    def add(name, a, b, push, pull=None, back=None, move=None):
        # `pull` is the adjoint, `back` the inverse of `push`
        pull = pull or back
        out.append(Pair(name, a, b, push, pull, back or pull,
                        move or push))

    e4, e22 = zoo._euclid(4), zoo._euclid(2, 2)
    add("reshape", e4, e22, lambda x: x.reshape(2, 2), lambda g: g.reshape(4))
    q4, q3, q2 = orthogonal(4), orthogonal(3), orthogonal(2)
    add("rotate plane", zoo._euclid(2), zoo._euclid(2),
        lambda x: q2 @ x, lambda g: q2.T @ g)
    add("rotate space", e4, e4, lambda x: q4 @ x, lambda g: q4.T @ g)
    add("complex numbers", e4, zoo._ceuclid(2),
        lambda x: x[:2] + 1j * x[2:],
        lambda g: np.concatenate([g.real, g.imag]))
    add("wrap plane", zoo._euclid(2), zoo.ProductInst([zoo._euclid(2)]),
        lambda x: [x], lambda g: g[0])
    add("split", e4, zoo.ProductInst([zoo._euclid(1), zoo._euclid(3)]),
        lambda x: [x[:1], x[1:]], np.concatenate)
    add("swap", zoo.ProductInst([zoo._sphere(3), zoo._euclid(2)]),
        zoo.ProductInst([zoo._euclid(2), zoo._sphere(3)]),
        lambda x: [x[1], x[0]], lambda g: [g[1], g[0]])
    add("wrap sphere", zoo._sphere(3), zoo.ProductInst([zoo._sphere(3)]),
        lambda x: [x], lambda g: g[0])
    add("rotate sphere", zoo._sphere(3), zoo._sphere(3),
        lambda x: q3 @ x, lambda g: q3.T @ g)
    add("reshape sphere", zoo._sphere(4), zoo._sphere(2, 2),
        lambda x: x.reshape(2, 2), lambda g: g.reshape(4))
    add("sphere as frame", zoo._sphere(3), zoo._stiefel(3, 1),
        lambda x: x.reshape(3, 1), lambda g: g.reshape(3))
    add("oblique", zoo.ProductInst([zoo._sphere(2), zoo._sphere(2)]),
        zoo._oblique(2, 2),
        lambda x: np.stack(x, axis=1), lambda g: [g[:, 0], g[:, 1]])
    add("circle", zoo.ProductInst([zoo._sphere(2), zoo._sphere(2)]),
        zoo._circle(2),
        lambda x: np.array([p[0] + 1j * p[1] for p in x]),
        lambda g: [np.array([c.real, c.imag]) for c in g])

    def symmetric(x):
        r = np.sqrt(0.5)
        return np.array([[x[0], r * x[1]], [r * x[1], x[2]]])

    add("symmetric", zoo._euclid(3), zoo._symm(2), symmetric,
        lambda g: np.array([g[0, 0], np.sqrt(0.5) * (g[0, 1] + g[1, 0]),
                            g[1, 1]]))
    add("skew", zoo._euclid(1), zoo._skew(2),
        lambda x: np.sqrt(0.5) * np.array([[0, x[0]], [-x[0], 0]]),
        lambda g: np.sqrt(0.5) * np.array([g[0, 1] - g[1, 0]]))
    add("rotate frames", zoo._stiefel(3, 2), zoo._stiefel(3, 2),
        lambda x: q3 @ x, lambda g: q3.T @ g)
    add("rotate subspaces", zoo._grass(4, 2), zoo._grass(4, 2),
        lambda x: q4 @ x, lambda g: q4.T @ g)
    add("permute frames", zoo._stiefel(3, 2, 2), zoo._stiefel(3, 2, 2),
        lambda x: x[::-1].copy(), lambda g: g[::-1].copy())
    for name, single, stack in (
            ("stacked frames", zoo._stiefel(3, 2), zoo._stiefel(3, 2, 2)),
            ("stacked subspaces", zoo._grass(3, 1), zoo._grass(3, 1, 2)),
            ("stacked definite", zoo._pd("SymmetricPositiveDefinite", 2),
             zoo._pd("SymmetricPositiveDefinite", 2, 2)),
            ("stacked balls", zoo._poincare(2), zoo._poincare(2, 2)),
            ("stacked positive", zoo._positive(1, 2), zoo._positive(1, 2, 2)),
            ("stacked rotations", zoo._group(2), zoo._group(2, 2))):
        add(name, zoo.ProductInst([single, single]), stack,
            lambda x: np.stack(x), lambda g: [g[0], g[1]])
    add("positive numbers", zoo._positive(1, 1),
        zoo._pd("SymmetricPositiveDefinite", 1),
        lambda x: x.reshape(1, 1), lambda g: g.reshape(1, 1))
    w = np.array([[0.5, 4.0]])
    add("other units", zoo._positive(1, 2, 1, True),
        zoo._positive(1, 2, 1, True), lambda x: w * x, lambda g: w * g,
        lambda x: x / w)
    m = np.array([[2.0, 0.3], [0.1, 0.7]])
    inv = np.linalg.inv(m)
    add("congruence", zoo._pd("SymmetricPositiveDefinite", 2),
        zoo._pd("SymmetricPositiveDefinite", 2),
        lambda x: m @ x @ m.T, lambda g: m.T @ g @ m,
        lambda x: inv @ x @ inv.T)
    add("rotate ball", zoo._poincare(2), zoo._poincare(2),
        lambda x: q2 @ x, lambda g: q2.T @ g)
    add("rotate rotations", zoo._group(3, 1, "polar"),
        zoo._group(3, 1, "polar"),
        lambda x: _special(q3) @ x, lambda g: _special(q3).T @ g,
        move=lambda v: v)
    add("rotate definite of low rank", zoo._psd(3, 2), zoo._psd(3, 2),
        lambda x: q3 @ x, lambda g: q3.T @ g)
    add("permute correlations", zoo._ell(3, 2), zoo._ell(3, 2),
        lambda x: x[[2, 0, 1]], lambda g: g[[1, 2, 0]])
    f = zoo.FixedRankInst(4, 3, 2)
    add("rotate low rank", f, f,
        lambda x: (q4 @ x[0], x[1], x[2]),
        lambda g: (q4.T @ g[0], g[1], g[2]))
    add("wrap low rank", f, zoo.ProductInst([f]),
        lambda x: [x], lambda g: g[0])
    return {p.name: p for p in out}


def _special(q):
    q = q.copy()
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


_PAIRS = {}


def pair(name):
    if not _PAIRS:
        _PAIRS.update(pairs())
    return _PAIRS[name]


def allowed(inst, config):
    lacks = inst.lacks
    if config[:2] == "tr":
        return "hessian" not in lacks and inst.kind != "fixedrank" and not (
            inst.kind == "product" and any(
                f.kind == "fixedrank" for f in inst.factors))
    if config[:2] == "cg":
        return "transport" not in lacks
    if config[:2] == "nm":
        return not lacks & {"log", "dist", "pair_mean"}
    if config[:2] == "ps":
        return not lacks & {"log", "transport"}
    return True


def cases(tier):
    deep = tier == "thorough"
    out = []
    for name, p in pairs().items():
        for config in opt.CONFIGS:
            if not deep and name not in ALL and config not in MAIN:
                continue
            if allowed(p.a, config) and allowed(p.b, config):
                out.append({"id": f"{name}/{config}", "pair": name,
                            "config": config, "deep": deep})
    return out


def pulled(p, cost):
    hess = None
    if cost.hess is not None:
        def hess(x, e):
            return p.pull(cost.hess(p.push(x), p.push(e)))

    return opt.Cost(lambda x: cost.cost(p.push(x)),
                    lambda x: p.pull(cost.grad(p.push(x))), hess)


def gap(inst, x, y):
    if inst.kind == "product":
        return max(gap(f, a, b) for f, a, b in zip(inst.factors, x, y))
    return zoo.gap(inst.invariant(x), inst.invariant(y))


def couple(p, tape, manifold, lead):
    """Random vectors of b are the images of those of a."""
    original = manifold.random_tangent_vector

    def record(x):
        v = original(x)
        tape.append((geo.copy(v), np.random.get_state()))
        return v

    def follow(x):
        v, state = tape.pop(0) if tape else (None, None)
        if v is None:
            return original(x)
        np.random.set_state(state)
        return manifold.zero_vector(x) + p.move(v)

    manifold.random_tangent_vector = record if lead else follow

    def quietly(function):
        # scipy's matrix logarithm draws from numpy's generator
        def wrapper(*args):
            state = np.random.get_state()
            try:
                return function(*args)
            finally:
                np.random.set_state(state)

        return wrapper

    for name in ("log", "dist") if "rotations" in p.name else ():
        setattr(manifold, name, quietly(getattr(manifold, name)))


def run_case(case, rec):
    p, config = pair(case["pair"]), case["config"]
    label = case["id"]
    cost = opt.distance_cost(p.b)
    population = config[:2] in ("nm", "ps")
    costs = opt.milder if population else opt.adversary
    first = opt.start_for(p.a, config)
    starts = (first, [p.push(x) for x in first] if population
              else p.push(first))
    n = 12 if case["deep"] else 5
    kwargs = {"Delta_bar": 2.0} if config[:2] == "tr" else {}

    def run(chooser):
        fixed = []

        class Follow:
            def choose(self, k, tag=None):
                return script.pop(0) if script else 0

        class Lead:
            def choose(self, k, tag=None):
                fixed.append(chooser.choose(k, tag))
                return fixed[-1]

        outs, tape = [], []
        for inst, source, start, who in (
                (p.a, pulled(p, cost), starts[0], Lead),
                (p.b, cost, starts[1], Follow)):
            script = list(fixed)
            world = opt.World(inst, cost=source, chooser=who(), costs=costs)
            couple(p, tape, world.manifold, inst is p.a and not outs)
            outs.append(opt.execute(
                world, opt.build(config, max_iterations=n, log_verbosity=1,
                                 verbosity=0, min_gradient_norm=1e-5,
                                 min_step_size=1e-8),
                start=geo.copy(start), **kwargs))
        return outs

    for deviations, depth in ((2, 3), (1, 12)) if case["deep"] else ((1, 3),):
        for choices, outs in core.explore(
                run, deviations=deviations, max_depth=depth, limit=4000):
            rec.trace()
            rec.step(outs[0].calls + outs[1].calls)
            rec.state((label, choices))
            compare(p, label, choices, *outs, rec)


def compare(p, label, choices, a, b, rec):
    def bad(what, u, v):
        rec.check(False, f"{label}/{what}",
                  lambda: f"answers {choices}: {u} against {v}")

    rec.check(True, label, nontrivial=choices)
    simplex = "/nm" in label
    tol, margin = (5e-2, 0.1) if simplex else (1e-6, 1e-9)
    costs = []
    for n, ((x, f), (y, g)) in enumerate(zip(a.world.order, b.world.order)):
        if simplex and n > int(p.a.get().dim) + 4:
            rec.outcome("compared as far as the centroids allow")
            return
        if any(f != c and abs(f - c) <= margin * max(1, abs(c))
               for c in costs):
            rec.outcome("round-off decides")
            return
        costs.append(f)
        if not opt.close(f, g, tol):
            return bad(f"cost of evaluation {n}", f, g)
        if gap(p.b, p.push(x), y) > tol * max(1.0, zoo.nrm(y)):
            return bad(f"point of evaluation {n}", p.push(x), y)
    if len(a.world.order) != len(b.world.order):
        return bad("number of points", len(a.world.order),
                   len(b.world.order))
    rec.outcome("compared to the end")
    for name in ("cost", "gradient_norm", "step_size"):
        u, v = getattr(a.result, name), getattr(b.result, name)
        if (u is None) != (v is None):
            return bad(name, u, v)
        if u is not None and not opt.close(u, v, tol):
            return bad(name, u, v)
    for name in ("iterations", "cost_evaluations"):
        u, v = getattr(a.result, name), getattr(b.result, name)
        if u != v:
            return bad(name, u, v)
    u, v = (r.result.stopping_criterion.split(" reached")[0] for r in (a, b))
    if u != v:
        return bad("stopping criterion", u, v)
    if gap(p.b, p.push(a.result.point), b.result.point) > tol * max(
            1.0, zoo.nrm(b.result.point)):
        return bad("result", p.push(a.result.point), b.result.point)
    if set(a.log) != set(b.log):
        return bad("log columns", sorted(a.log), sorted(b.log))
    for name in a.log:
        if name in ("time", "point"):
            continue
        u, v = a.log[name], b.log[name]
        if len(u) != len(v):
            return bad(f"log {name}", u, v)
        for s, t in zip(u, v):
            if np.ndim(s) or isinstance(s, (str, dict, tuple, list)):
                continue
            if (s is None) != (t is None) or s is not None and not opt.close(
                    float(s), float(t), tol):
                return bad(f"log {name}", u, v)
