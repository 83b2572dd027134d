"""Gradient-based optimizers converge on textbook problems."""
import itertools

import numpy as np

from pymanopt import optimizers

from .. import calculus, core, geo, opt, zoo

ID = "C31"
LEVEL = "model_checking"
RULE = (
    "state = (optimizer with line search and direction rule, manifold with "
    "its textbook problem, starting point); one transition per run of the "
    "real optimizer with its default budget: the run must end at a point "
    "with a small Riemannian gradient and, from generic starts, at the known "
    "optimal value"
)
ASSUMPTIONS = [
    "well conditioned problems with compact sublevel sets and no spurious "
    "local minima, optimal values known in closed form",
    "small: 1e-4 of the initial gradient norm (or 1e-4); optimal: within "
    "1e-3 of the range of the cost",
    "line searches get 50 contractions where the default of 10 is not enough "
    "for unscaled directions; Fletcher-Reeves and Hager-Zhang, and "
    "Hestenes-Stiefel with plain backtracking, are run with Powell restarts "
    "(without, they may jam far from a solution)",
]


def rnd(name, *shape, cplx=False):
    return zoo.rnd(zoo.rng("c31", name), shape, cplx)


def spd(name, n, cplx=False):
    a = rnd(name, n, n, cplx=cplx)
    q = np.linalg.qr(a)[0]
    return (q * np.linspace(1, 3, n)) @ q.conj().T


class Problem:
    """cost, grad, hess on one slice; the optimal value."""

    def __init__(self, cost, grad, hess, best):
        self.cost, self.grad, self.hess, self.best = cost, grad, hess, best


def dot(a, b):
    return float(np.real(np.vdot(a, b)))


def near(name, shape, cplx, nearest):
    """1/2 |x - t|^2 with a known nearest point."""
    t = rnd(name, *shape, cplx=cplx)
    best = nearest(t)
    return Problem(lambda x: 0.5 * dot(x - t, x - t), lambda x: x - t,
                   lambda x, e: e, 0.5 * dot(best - t, best - t))


def subspace(name, n, p, cplx=False, weights=None):
    a = spd(name, n, cplx)
    w = np.ones(p) if weights is None else np.asarray(weights, float)
    top = np.sort(np.linalg.eigvalsh(a))[::-1][:p]
    best = -0.5 * float(np.sum(top * np.sort(w)[::-1]))
    return Problem(lambda x: -0.5 * dot(x, a @ x * w),
                   lambda x: -a @ x * w, lambda x, e: -a @ e * w, best)


def rayleigh(name, shape):
    n = int(np.prod(shape))
    a = spd(name, n)

    def mul(x):
        return (a @ x.reshape(-1)).reshape(shape)

    return Problem(lambda x: -0.5 * dot(x, mul(x)), lambda x: -mul(x),
                   lambda x, e: -mul(e), -0.5 * np.linalg.eigvalsh(a)[-1])


def logdet(name, n, cplx=False):
    t = spd(name, n, cplx)
    s = np.linalg.inv(t)

    def cost(x):
        return float(np.real(np.trace(s @ x))) - np.linalg.slogdet(x)[1]

    def hess(x, e):
        y = np.linalg.inv(x)
        return y @ e @ y

    return Problem(cost, lambda x: s - np.linalg.inv(x), hess,
                   n - np.linalg.slogdet(t)[1])


def barrier(name, shape):
    t = np.exp(0.5 * rnd(name, *shape))
    return Problem(lambda x: float(np.sum(x / t - np.log(x))),
                   lambda x: 1 / t - 1 / x, lambda x, e: e / x**2,
                   float(np.sum(1 - np.log(t))))


def cosh(name, n):
    t = rnd(name, n)
    t = 0.6 * t / np.linalg.norm(t)

    def parts(x):
        return x - t, 1 - dot(x, x)

    def cost(x):
        d, c = parts(x)
        return dot(d, d) / c

    def grad(x):
        d, c = parts(x)
        return 2 * d / c + 2 * dot(d, d) / c**2 * x

    def hess(x, e):
        d, c = parts(x)
        xe, de, dd = dot(x, e), dot(d, e), dot(d, d)
        return (2 * e / c + 4 * xe / c**2 * d + 4 * de / c**2 * x
                + 8 * dd * xe / c**3 * x + 2 * dd / c**2 * e)

    return Problem(cost, grad, hess, 0.0)


def factor(name, n, k, cplx=False):
    a = spd(name, n, cplx)
    left = np.sort(np.linalg.eigvalsh(a))[::-1][k:]
    return Problem(
        lambda y: 0.25 * dot(y @ zoo.H(y) - a, y @ zoo.H(y) - a),
        lambda y: (y @ zoo.H(y) - a) @ y,
        lambda y, e: (y @ zoo.H(y) - a) @ e
        + (e @ zoo.H(y) + y @ zoo.H(e)) @ y, 0.25 * float(np.sum(left**2)))


def lowrank(name, m, n, r):
    u = np.linalg.qr(rnd((name, "u"), m, m))[0][:, :min(m, n)]
    v = np.linalg.qr(rnd((name, "v"), n, n))[0][:, :min(m, n)]
    s = np.linspace(3, 1, min(m, n))
    a = (u * s) @ v.T

    def grad(x):
        u, s, vt = x
        g = (u * s) @ vt - a
        return g @ vt.T * s, np.diag(u.T @ g @ vt.T).copy(), (
            s[:, None] * (u.T @ g))

    def cost(x):
        d = (x[0] * x[1]) @ x[2] - a
        return 0.5 * dot(d, d)

    return Problem(cost, grad, None, 0.5 * float(np.sum(s[r:]**2)))


def unit_columns(t):
    return t / np.linalg.norm(t, axis=-2, keepdims=True)


def rotation(t):
    u, _, v = np.linalg.svd(t)
    d = np.ones(len(t))
    if not np.iscomplexobj(t):
        d[-1] = np.sign(np.linalg.det(u @ v))
    return (u * d) @ v


def world_list():
    pd, hpd = "SymmetricPositiveDefinite", "HermitianPositiveDefinite"
    idt = lambda t: t  # noqa: E731
    unit = lambda t: t / np.abs(t)  # noqa: E731
    return {
        "line": (zoo._euclid(1), lambda i: near(i, (1,), False, idt)),
        "matrix": (zoo._euclid(2, 3), lambda i: near(i, (2, 3), False, idt)),
        "complex": (zoo._ceuclid(2, 2),
                    lambda i: near(i, (2, 2), True, idt)),
        "symmetric": (zoo._symm(3), lambda i: near(i, (3, 3), False, zoo.sym)),
        "symmetrics": (zoo._symm(2, 3),
                       lambda i: near(i, (2, 2), False, zoo.sym)),
        "skew": (zoo._skew(3), lambda i: near(
            i, (3, 3), False, lambda t: (t - t.T) / 2)),
        "sphere": (zoo._sphere(4), lambda i: rayleigh(i, (4,))),
        "spheres": (zoo._sphere(2, 2), lambda i: rayleigh(i, (2, 2))),
        "oblique": (zoo._oblique(3, 2),
                    lambda i: near(i, (3, 2), False, unit_columns)),
        "circle": (zoo._circle(2), lambda i: near(i, (2,), True, unit)),
        "stiefel": (zoo._stiefel(4, 2),
                    lambda i: subspace(i, 4, 2, weights=(1, 2))),
        "stiefels": (zoo._stiefel(3, 1, 2, "polar"),
                     lambda i: subspace(i, 3, 1)),
        "polar": (zoo._stiefel(4, 2, 1, "polar"),
                  lambda i: subspace(i, 4, 2, weights=(1, 2))),
        "grassmann": (zoo._grass(4, 2), lambda i: subspace(i, 4, 2)),
        "grassmanns": (zoo._grass(3, 1, 2), lambda i: subspace(i, 3, 1)),
        "cgrassmann": (zoo._grass(3, 2, 1, True),
                       lambda i: subspace(i, 3, 2, True)),
        "cgrassmanns": (zoo._grass(3, 1, 2, True),
                        lambda i: subspace(i, 3, 1, True)),
        "rotation": (zoo._group(3), lambda i: near(i, (3, 3), False,
                                                   rotation)),
        "rotations": (zoo._group(2, 2, "polar"),
                      lambda i: near(i, (2, 2), False, rotation)),
        "unitary": (zoo._group(2, 1, "qr", True),
                    lambda i: near(i, (2, 2), True, rotation)),
        "unitaries": (zoo._group(2, 2, "polar", True),
                      lambda i: near(i, (2, 2), True, rotation)),
        "positive": (zoo._positive(2, 2), lambda i: barrier(i, (2, 2))),
        "positives": (zoo._positive(2, 1, 2, True),
                      lambda i: barrier(i, (2, 1))),
        "pd": (zoo._pd(pd, 3), lambda i: logdet(i, 3)),
        "pds": (zoo._pd(pd, 2, 2), lambda i: logdet(i, 2)),
        "hpd": (zoo._pd(hpd, 2), lambda i: logdet(i, 2, True)),
        "hpds": (zoo._pd(hpd, 2, 2), lambda i: logdet(i, 2, True)),
        "ball": (zoo._poincare(2), lambda i: cosh(i, 2)),
        "balls": (zoo._poincare(2, 2), lambda i: cosh(i, 2)),
        "psd": (zoo._psd(3, 2), lambda i: factor(i, 3, 2)),
        "cpsd": (zoo._psd(3, 2, True), lambda i: factor(i, 3, 2, True)),
        "fixedrank": (zoo.FixedRankInst(4, 3, 2),
                      lambda i: lowrank(i, 4, 3, 2)),
        "elliptope": (zoo._ell(3, 2), None),
    }


PRODUCTS = (("sphere", "line"), ("pd", "rotation"), ("grassmann", "circle"),
            ("stiefel", "positive"), ("fixedrank", "sphere"), ("matrix",))


def problem_for(name):
    """(instance, problem)"""
    worlds = world_list()
    if isinstance(name, tuple):
        parts = [problem_for(n) for n in name]
        inst = zoo.ProductInst([i for i, _ in parts])
        ps = [p for _, p in parts]
        hess = None if any(p.hess is None for p in ps) else (
            lambda x, e: [p.hess(a, b) for p, a, b in zip(ps, x, e)])
        return inst, Problem(
            lambda x: sum(p.cost(q) for p, q in zip(ps, x)),
            lambda x: [p.grad(q) for p, q in zip(ps, x)], hess,
            sum(p.best for p in ps))
    inst, make = worlds[name]
    if make is None:
        c = opt.distance_cost(inst)
        return inst, Problem(c.cost, c.grad, c.hess, None)
    if inst.kind != "array" or inst.k == 1:
        return inst, make(name)
    slices = [make((name, j)) for j in range(inst.k)]
    s = calculus.Stack(slices)
    return inst, Problem(s.cost, s.grad, s.hess, sum(p.best for p in slices))


def configurations():
    out = {}
    bt, ad = (lambda: opt.BT(max_iterations=50)), (
        lambda: opt.AD(max_iterations=50))
    cg, sd = optimizers.ConjugateGradient, optimizers.SteepestDescent
    for name, ls in (("bt", bt), ("ad", ad), ("default", None)):
        def kw(ls=ls, **more):
            return {**({} if ls is None else {"line_searcher": ls()}), **more}

        out[f"sd/{name}"] = lambda kw=kw: sd(verbosity=0, **kw())
        for rule, orth in itertools.product(opt.RULES, (None, 0.1)):
            if orth is None and rule in ("FletcherReeves", "HagerZhang"):
                continue
            if orth is None and rule == "HestenesStiefel" and name == "bt":
                continue
            more = {"beta_rule": rule}
            if orth:
                more["orth_value"] = orth
            out[f"cg/{rule}/{orth}/{name}"] = (
                lambda kw=kw, more=more: cg(verbosity=0, **kw(**more)))
    for c in opt.TRUST:
        out[f"tr/{c}"] = lambda c=c: opt.build(c)
    return out


def cases(tier):
    deep = tier == "thorough"
    names = list(world_list()) + list(PRODUCTS)
    return [{"id": n if isinstance(n, str) else "x".join(n), "world": n,
             "starts": 12 if deep else 4, "special": True}
            for n in names]


def run_case(case, rec):
    name = case["world"]
    name = tuple(name) if isinstance(name, (list, tuple)) else name
    inst, problem = problem_for(name)
    n = case["starts"]
    starts = [(w, p, False) for w, p in inst.points(generic=min(n, 2))
              if not w.startswith("generic")]
    starts += [(f"generic{j}", p, True) for j, (_, p) in enumerate(
        inst.points(generic=n, special=False))]
    for label, make in configurations().items():
        kind = label[:2]
        if kind == "tr" and ("hessian" in inst.lacks or problem.hess is None):
            continue
        if kind == "cg" and "transport" in inst.lacks:
            continue
        for which, start, generic in starts:
            world = opt.World(inst, cost=problem)
            first = world.gnorm(start)
            out = opt.execute(world, make(), start=geo.copy(start))
            r = out.result
            rec.trace()
            rec.step(out.calls)
            rec.state((case["id"], label, which))
            at = f"{case['id']}/{label}"
            true = world.gnorm(r.point)
            rec.check(true <= 1e-4 * max(1.0, first), f"{at}/critical",
                      lambda: f"from {which}: gradient norm {true} (initially "
                      f"{first}) after {r.iterations} iterations, "
                      f"{r.stopping_criterion}", nontrivial=which)
            rec.outcome((kind, r.stopping_criterion.split(" reached")[0]))
            if problem.best is None or not generic:
                continue
            span = max(1.0, abs(problem.best),
                       problem.cost(start) - problem.best)
            value = problem.cost(r.point)
            rec.check(abs(value - problem.best) <= 1e-3 * span,
                      f"{at}/optimal", lambda: f"from {which}: cost {value}, "
                      f"optimal {problem.best}", nontrivial=which)
