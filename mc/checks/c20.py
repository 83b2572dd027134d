"""Misuse is rejected and problems are immutable."""
import contextlib
import io
import itertools
import warnings

import numpy as np

import pymanopt
import pymanopt.manifolds as pm
from pymanopt import optimizers

from .. import opt, zoo

ID = "C20"
LEVEL = "model_checking"
RULE = (
    "state = one configuration (constructor arguments, function signature, "
    "set of supplied functions, shape of a returned or passed value, "
    "attribute and time of an attempted assignment); every configuration of "
    "the bounded grids is tried and accepted exactly if the validity "
    "predicate written from the documentation accepts it"
)
ASSUMPTIONS = [
    "rejecting means raising an exception; its exact type is not judged",
    "arguments no documentation restricts (zero sizes of Euclidean spaces, "
    "sizes below one of the matrix groups) are outside the grids",
]


def cases(tier):
    names = ["signatures", "backends", "problems", "immutable",
             "manifolds", "base", "subspheres", "products", "options",
             "returns", "arguments", "starts"]
    return [{"id": n, "deep": tier == "thorough"} for n in names]


def run_case(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["_" + case["id"]](rec, case["deep"])


def attempt(rec, label, valid, build, what):
    """Accepted iff valid; returns what was built."""
    try:
        made = build()
        error = None
    except Exception as e:
        made, error = None, e
    rec.state((label, what))
    rec.trace()
    rec.step()
    rec.outcome(f"{label}: {'accepted' if error is None else 'rejected'}")
    if valid:
        rec.check(error is None, f"{label}/valid-rejected",
                  lambda: f"{what}: {type(error).__name__}: {error}",
                  nontrivial=what)
    else:
        rec.check(error is not None, f"{label}/invalid-accepted",
                  lambda: f"{what} was accepted", nontrivial=what)
    return made


def _signatures(rec, deep):
    """Every parameter list up to the bound, both decorators."""
    kinds = ("pos", "default", "only", "star", "kwonly", "kw")
    m = pm.Euclidean(2)
    length = 5 if deep else 4
    for n in range(length + 1):
        for word in itertools.product(kinds, repeat=n):
            source = spell(word)
            if source is None:
                continue
            f = eval(source)
            named = sum(k in ("pos", "default", "only") for k in word)
            valid = not {"kwonly", "kw"} & set(word) and (
                named > 0) != ("star" in word)
            for backend in ("numpy", "autograd"):
                dec = getattr(pymanopt.function, backend)(m)
                made = attempt(rec, f"signature/{backend}", valid,
                               lambda: dec(f), source)
                if made is not None and valid:
                    # decorated functions stay callable
                    rec.check(
                        made(*range(named or 2)) == sum(range(named or 2)),
                        f"signature/{backend}/call", lambda: source,
                        nontrivial=source)


def spell(word):
    """Source of a lambda with this parameter list, None if impossible."""
    parts, names, star = [], [], None
    order = {"only": 0, "pos": 1, "default": 1, "star": 2, "kwonly": 3,
             "kw": 4}
    if [order[k] for k in word] != sorted(order[k] for k in word):
        return None
    if word.count("star") > 1 or word.count("kw") > 1:
        return None
    positional = [k for k in word if k in ("pos", "default")]
    if positional != sorted(positional, reverse=True):
        return None
    for i, k in enumerate(word):
        name = f"a{i}"
        if k == "star":
            parts.append("*a")
            star = "a"
        elif k == "kw":
            parts.append("**k")
        elif k == "kwonly":
            if "star" not in word and "*" not in parts:
                parts.append("*")
            parts.append(f"{name}=0")
        else:
            if k != "only" and i and word[i - 1] == "only":
                parts.append("/")
            parts.append(name + ("=7" if k == "default" else ""))
            names.append(name)
    if "only" in word and "/" not in parts:
        last = max(i for i, k in enumerate(word) if k == "only")
        parts.insert(last + 1, "/")
    total = " + ".join(names) or "0"
    if star:
        total += " + sum(a)"
    return f"lambda {', '.join(parts)}: {total}"


def _backends(rec, deep):
    """Decorators need a manifold, a callable and an installed backend."""
    from pymanopt.autodiff import backends

    classes = {
        "numpy": backends._numpy.NumPyBackend,
        "autograd": backends._autograd.AutogradBackend,
        "jax": backends._jax.JaxBackend,
        "pytorch": backends._pytorch.PyTorchBackend,
        "tensorflow": backends._tensorflow.TensorFlowBackend,
    }
    manifolds = [pm.Euclidean(2), pm.FixedRankEmbedded(3, 2, 1),
                 pm.Product([pm.Sphere(2), pm.Euclidean(1)])]
    wrong = [None, 3, "Sphere", pm.Sphere, [pm.Sphere(2)], np.eye(2),
             lambda x: x]
    for name, cls in classes.items():
        factory = getattr(pymanopt.function, name)
        usable = cls.is_available()
        # this process imports neither tensorflow, torch nor jax
        rec.check(usable == (name in ("numpy", "autograd")),
                  f"backend/{name}/availability", lambda: f"{usable}")
        for bad in wrong:
            attempt(rec, f"backend/{name}/manifold", False,
                    lambda: factory(bad)(lambda x: 0.0),
                    f"decorator({bad!r})")
        for m in manifolds:
            made = attempt(rec, f"backend/{name}/function", usable,
                           lambda: factory(m)(lambda *x: 0.0), str(m))
            for bad in (None, 3, "cost", np.eye(2), [lambda x: x]):
                attempt(rec, f"backend/{name}/function", False,
                        lambda: factory(m)(bad), repr(bad))
            if made is None:
                continue
            attempt(rec, f"backend/{name}/decorated-twice", False,
                    lambda: pymanopt.Problem(m, lambda *x: made(*x)),
                    str(m))
            # no derivatives from plain numpy functions
            x = m.random_point()
            problem = pymanopt.Problem(m, made)
            v = m.random_tangent_vector(x)
            if name == "numpy":
                for f, args in (("euclidean_gradient", (x,)),
                                ("riemannian_gradient", (x,)),
                                ("euclidean_hessian", (x, v)),
                                ("riemannian_hessian", (x, v))):
                    attempt(rec, "backend/numpy/derivative", False,
                            lambda: getattr(problem, f)(*args), f"{m} {f}")


def choices(m):
    dec = pymanopt.function.numpy(m)
    auto = pymanopt.function.autograd(m)
    return {
        "absent": None, "numpy": dec(lambda *x: 0.0),
        "autograd": auto(lambda *x: 0.0), "plain": lambda *x: 0.0,
        "value": 3.0,
    }


def _problems(rec, deep):
    """All combinations of supplied functions."""
    for m in (pm.Euclidean(2), pm.FixedRankEmbedded(3, 2, 1),
              pm.Product([pm.Sphere(2), pm.Euclidean(1)])):
        table = choices(m)
        names = ("cost", "euclidean_gradient", "riemannian_gradient",
                 "euclidean_hessian", "riemannian_hessian")
        good = ("absent", "numpy", "autograd")
        for word in itertools.product(table, repeat=5):
            valid = all(k in good for k in word) and word[0] != "absent"
            if word[1] != "absent" and word[2] != "absent":
                valid = False
            if word[3] != "absent" and word[4] != "absent":
                valid = False
            options = {n: table[k] for n, k in zip(names, word)}
            explicit = {n: f for n, f in options.items()
                        if n == "cost" or f is not None}
            attempt(rec, "problem", valid,
                    lambda: pymanopt.Problem(m, **options), (str(m), word))
            if deep:
                attempt(rec, "problem-omitted", valid,
                        lambda: pymanopt.Problem(m, **explicit),
                        (str(m), word))
    for bad in (None, 3, "x", pm.Sphere):
        attempt(rec, "problem/manifold", False,
                lambda: pymanopt.Problem(bad, table["numpy"]), repr(bad))


def _immutable(rec, deep):
    """No attribute of a problem that defines it can be reassigned."""
    m, other = pm.Sphere(3), pm.Euclidean(3)
    w = np.array([1.0, 2.0, 4.0])
    x = np.array([0.6, 0.0, 0.8])
    v = np.array([0.0, 1.0, 0.0])
    attributes = ("manifold", "preconditioner", "cost", "euclidean_gradient",
                  "riemannian_gradient", "euclidean_hessian",
                  "riemannian_hessian")
    dec = pymanopt.function.autograd(m)
    for given in ((), ("euclidean_gradient",), ("riemannian_gradient",),
                  ("euclidean_gradient", "euclidean_hessian"),
                  ("euclidean_gradient", "riemannian_hessian"),
                  ("preconditioner",)):
        options = {}
        for g in given:
            f = (lambda x: w * x) if "gradient" in g else (
                lambda x, v: w * v)
            options[g] = f if g == "preconditioner" else dec(f)

        def make():
            return pymanopt.Problem(
                m, dec(lambda x: 0.5 * (w * x * x).sum()), **options)

        def answers(p):
            out = [p.cost(x), p.euclidean_gradient(x),
                   p.riemannian_gradient(x), p.euclidean_hessian(x, v),
                   p.riemannian_hessian(x, v), p.preconditioner(x, v)]
            return [np.array(o) for o in out]

        want = answers(make())
        values = (None, other, m, lambda *a: 0.0, dec(lambda *a: 0.0))
        for used, first, value in itertools.product(
                (False, True), attributes, values):
            p = make()
            if used:
                answers(p)
            for second in (first,) + (attributes if deep else ()):
                def assign():
                    setattr(p, second, value)

                attempt(rec, f"assign/{second}", False, assign,
                        (given, used, first, second, repr(value)[:20]))
            got = answers(p)
            rec.check(p.manifold is m and all(
                np.array_equal(a, b) for a, b in zip(got, want)),
                f"assign/{first}/effect",
                lambda: f"after assigning {value}: {got} instead of {want}",
                nontrivial=(given, used, repr(value)[:20]))


def _manifolds(rec, deep):
    """Constructor grids around every documented limit."""
    top = 6 if deep else 4
    grid = range(-1, top + 1)
    for cls in ("Stiefel", "Grassmann", "ComplexGrassmann"):
        for n, p, k in itertools.product(grid, grid, range(-1, 4)):
            m = attempt(rec, cls, n >= p >= 1 and k >= 1,
                        lambda: getattr(pm, cls)(n, p, k=k), (n, p, k))
            if m is not None and n >= p >= 1 and k >= 1:
                x = m.random_point()
                rec.check(x.shape == ((n, p) if k == 1 else (k, n, p)),
                          f"{cls}/shape", lambda: f"{x.shape}",
                          nontrivial=(n, p, k))
    for m, n, k in itertools.product(range(0, top + 1), repeat=3):
        attempt(rec, "FixedRank", m >= k >= 1 and n >= k,
                lambda: pm.FixedRankEmbedded(m, n, k), (m, n, k))
    for n, k in itertools.product(grid, range(-1, 5)):
        attempt(rec, "PoincareBall", n >= 1 and k >= 1,
                lambda: pm.PoincareBall(n, k=k), (n, k))
        if n < 1:
            continue
        for cls in ("Symmetric", "SkewSymmetric"):
            attempt(rec, cls, k >= 1, lambda: getattr(pm, cls)(n, k), (n, k))
        for cls, r in itertools.product(
                ("SpecialOrthogonalGroup", "UnitaryGroup"),
                ("qr", "polar", "", "QR", "svd", "exp", None)):
            attempt(rec, cls, k >= 1 and r in ("qr", "polar"),
                    lambda: getattr(pm, cls)(n, k=k, retraction=r), (n, k, r))
    for r in ("qr", "polar", "", "QR", "svd", "exp", "cayley", None):
        for k in (1, 2):
            attempt(rec, "Stiefel/retraction", r in ("qr", "polar"),
                    lambda: pm.Stiefel(3, 2, k=k, retraction=r), (k, r))
    for cls in ("Euclidean", "ComplexEuclidean", "Sphere"):
        for n in range(0, 5):
            for shape in itertools.product((1, 2, 3), repeat=n):
                m = attempt(rec, cls, n >= 1,
                            lambda: getattr(pm, cls)(*shape), shape)
                if m is not None and n:
                    rec.check(np.shape(m.random_point()) == shape,
                              f"{cls}/shape", lambda: f"{shape}",
                              nontrivial=shape)


def _base(rec, deep):
    """The base class checks dimension and layout."""
    class Plain(pm.manifold.Manifold):
        def inner_product(self, *a):
            pass

        projection = norm = random_point = random_tangent_vector = \
            zero_vector = inner_product

    layouts = [1, 2, 3, 0, -1, 1.0, "1", None, (1,), (1, 1), (1, 3), [2, 1],
               [1], (0,), (1, 0), (3, -1), [1, 1, -2], {1: 1}]
    for d, lay in itertools.product(
            (0, 1, 5, np.int64(3), -1, -3, 1.0, 2.5, "1", None, [1]),
            layouts):
        valid = isinstance(d, (int, np.integer)) and d >= 0
        if isinstance(lay, (tuple, list)):
            valid = valid and all(n > 0 for n in lay)
        else:
            valid = valid and isinstance(lay, int) and lay > 0
        m = attempt(rec, "Manifold", valid,
                    lambda: Plain("plain", d, point_layout=lay), (d, lay))
        if m is not None and valid:
            total = sum(lay) if isinstance(lay, (tuple, list)) else lay
            rec.check(m.dim == d and m.point_layout == lay
                      and m.num_values == total and str(m) == "plain",
                      "Manifold/properties", lambda: f"{d} {lay}",
                      nontrivial=(d, lay))
            for name, value in (("dim", 7), ("point_layout", 2),
                                ("num_values", 2)):
                attempt(rec, f"Manifold/{name}", False,
                        lambda: setattr(m, name, value), (d, lay, name))
    for missing in ("inner_product", "projection", "norm", "random_point",
                    "random_tangent_vector", "zero_vector"):
        body = {n: (lambda self, *a: None) for n in (
            "inner_product", "projection", "norm", "random_point",
            "random_tangent_vector", "zero_vector") if n != missing}
        cls = type("Partial", (pm.manifold.Manifold,), body)
        attempt(rec, "Manifold/abstract", False,
                lambda: cls("partial", 1), missing)


def _subspheres(rec, deep):
    r = zoo.rng("c20")
    for cls in ("SphereSubspaceIntersection",
                "SphereSubspaceComplementIntersection"):
        for shape in [(2,), (3,), (2, 2, 2), ()]:
            attempt(rec, cls, False,
                    lambda: getattr(pm, cls)(r.normal(size=shape)), shape)
        for n, k, _ in itertools.product(
                range(1, 6 if deep else 5), range(1, 6 if deep else 5),
                range(200 if deep else 40)):
            if n == k and "Complement" in cls:
                continue  # nothing is left of the space
            m = attempt(rec, cls, n >= k,
                        lambda: getattr(pm, cls)(r.normal(size=(n, k))),
                        (n, k))
            if m is not None and n >= k:
                want = (n - k if "Complement" in cls else k) - 1
                rec.check(m.dim == want, f"{cls}/dimension",
                          lambda: f"{m.dim} instead of {want}",
                          nontrivial=(n, k))


def _products(rec, deep):
    leaf = [pm.Sphere(2), pm.Euclidean(2), pm.FixedRankEmbedded(3, 2, 1)]
    inner = pm.Product([pm.Sphere(2), pm.Euclidean(1)])
    for n in range(1, 4 if deep else 4):
        for word in itertools.product(leaf + [inner], repeat=n):
            m = attempt(rec, "Product", inner not in word,
                        lambda: pm.Product(word),
                        [str(w) for w in word])
            if m is not None and inner not in word:
                rec.check(
                    m.dim == sum(w.dim for w in word)
                    and tuple(m.point_layout) == tuple(
                        w.point_layout for w in word)
                    and m.num_values == sum(w.num_values for w in word)
                    and len(m.manifolds) == n
                    and all(a is b for a, b in zip(m.manifolds, word)),
                    "Product/properties", lambda: f"{word}",
                    nontrivial=tuple(str(w) for w in word))
    # tangent vectors of different products do not add up
    small, large = pm.Product(leaf[:2]), pm.Product(leaf)
    u = small.random_tangent_vector(small.random_point())
    v = large.random_tangent_vector(large.random_point())
    for a, b in ((u, v), (v, u)):
        attempt(rec, "Product/add", False, lambda: a + b, (len(a), len(b)))
        attempt(rec, "Product/subtract", False, lambda: a - b,
                (len(a), len(b)))


def _options(rec, deep):
    rules = set(opt.RULES)
    for rule in list(opt.RULES) + ["", "hestenesstiefel", "Hestenes-Stiefel",
                                   "HS", "none", None, 0, "Fletcher",
                                   "PolakRibiere "]:
        made = attempt(rec, "ConjugateGradient/beta_rule", rule in rules,
                       lambda: optimizers.ConjugateGradient(beta_rule=rule),
                       repr(rule))
        rec.check(made is None or str(made) == "ConjugateGradient",
                  "ConjugateGradient/name")
    names = ("max_time", "max_iterations", "min_gradient_norm",
             "min_step_size", "max_cost_evaluations", "verbosity",
             "log_verbosity")
    for cls in ("SteepestDescent", "ConjugateGradient", "TrustRegions",
                "NelderMead", "ParticleSwarm"):
        kind = getattr(optimizers, cls)
        for name in names + ("max_iter", "maxtime", "tolerance", "logverb"):
            attempt(rec, f"{cls}/options", name in names,
                    lambda: kind(**{name: 1}), name)
    attempt(rec, "Optimizer/abstract", False,
            lambda: optimizers.optimizer.Optimizer(), "Optimizer()")


def _returns(rec, deep):
    """User gradients of products must have one entry per component."""
    for factors in ([zoo._sphere(3), zoo._euclid(2)],
                    [zoo._euclid(2), zoo.FixedRankInst(3, 2, 1)],
                    [zoo.FixedRankInst(3, 2, 1)]):
        inst = zoo.ProductInst(factors)
        m = inst.get()
        x = inst.points(generic=1)[-1][1]
        v = m.random_tangent_vector(x)
        n = m.num_values
        parts = opt.unnest(x, m.point_layout)
        dec = pymanopt.function.numpy(m)
        results = {f"{n + d} in a {box.__name__}": box(
            ((parts + parts) * 2)[:max(0, n + d)])
            for d in (-2, -1, 0, 1, n) for box in (list, tuple)}
        results["array"] = parts[0]
        results["None"] = None
        results["number"] = 1.0
        for what, value in results.items():
            valid = what.startswith(f"{n} in")
            for kind in ("euclidean_gradient", "euclidean_hessian"):
                f = (lambda *a: value)
                p = pymanopt.Problem(m, dec(lambda *a: 0.0), **{kind: dec(f)})
                if kind == "euclidean_hessian" and "hessian" in inst.lacks:
                    continue
                args = (x,) if kind == "euclidean_gradient" else (x, v)
                attempt(rec, f"return/{kind}", valid,
                        lambda: getattr(p, kind)(*args),
                        (inst.name, what))


def _arguments(rec, deep):
    """Points of the wrong structure do not reach the user's function."""
    for factors in ([zoo._sphere(3), zoo._euclid(2)],
                    [zoo._euclid(2), zoo.FixedRankInst(3, 2, 1)],
                    [zoo.FixedRankInst(3, 2, 1), zoo._sphere(2)]):
        inst = zoo.ProductInst(factors)
        m = inst.get()
        x = list(inst.points(generic=1)[-1][1])
        seen = []
        dec = pymanopt.function.numpy(m)

        def cost(*args):
            seen.append(args)
            return 0.0

        p = pymanopt.Problem(m, dec(cost), euclidean_gradient=dec(
            lambda *args: seen.append(args) or list(args)))
        arr = np.ones(2)
        variants = {"itself": x, "tuple": tuple(x), "short": x[:-1],
                    "long": x + [arr], "empty": []}
        for i, f in enumerate(factors):
            if f.get().point_layout == 1:
                variants[f"list at {i}"] = x[:i] + [list(x[i])] + x[i + 1:]
                variants[f"triple at {i}"] = x[:i] + [(x[i],) * 3] + x[i + 1:]
            else:
                variants[f"pair at {i}"] = x[:i] + [x[i][:2]] + x[i + 1:]
                variants[f"four at {i}"] = x[:i] + [
                    tuple(x[i]) + (arr,)] + x[i + 1:]
        for what, point in variants.items():
            for f in ("cost", "euclidean_gradient"):
                seen.clear()
                attempt(rec, f"argument/{f}", what in ("itself", "tuple"),
                        lambda: getattr(p, f)(point), (inst.name, what))
                rec.check(what in ("itself", "tuple") or not seen,
                          f"argument/{f}/reached", lambda: f"{what}",
                          nontrivial=(inst.name, what))


def _starts(rec, deep):
    """Initial points of the population methods."""
    for name in ("line", "plane", "sphere"):
        inst = opt.inst(name)
        need = int(inst.get().dim) + 1
        r = zoo.rng("starts")
        pool = [inst.sl.rand(r) for _ in range(need + 3)]
        for n in range(0, need + 3):
            for box in (list, tuple):
                start = box(pool[:n])
                w = opt.World(inst)
                o = opt.build("nm", max_iterations=2)
                attempt(rec, "NelderMead/simplex", n == need,
                        lambda: opt.execute(w, o, start=start),
                        (name, n, box.__name__))
                w = opt.World(inst)
                o = opt.build("pso", max_iterations=2)
                if n >= 1:
                    out = attempt(rec, "ParticleSwarm/population", True,
                                  lambda: opt.execute(w, o, start=start),
                                  (name, n, box.__name__))
                    rec.check(out is None or out.result.cost_evaluations
                              == out.calls, "ParticleSwarm/count")
        for bad in (pool[0], 3, "simplex", set()):
            for config in ("nm", "pso"):
                w = opt.World(inst)
                o = opt.build(config, max_iterations=2)
                with contextlib.redirect_stdout(io.StringIO()):
                    attempt(rec, f"{config}/initial_point", False,
                            lambda: opt.execute(w, o, start=bad),
                            (name, repr(bad)[:20]))
