"""Where the derivatives of a problem come from."""
import numpy as np

from .. import diff

ID = "C40"
TASKS_PER_PROCESS = 1  # a process imports the packages of one backend
LEVEL = "model_checking"
RULE = (
    "state = (backend, manifold, program = cost of the grammar, optimizer, "
    "source of the derivatives, start); transitions = iterations of the real "
    "optimizer; the log and the result are compared, iteration by iteration, "
    "with the run on hand-derived Euclidean derivatives in plain numpy"
)
ASSUMPTIONS = [
    "the hand-derived derivatives of the terms in mc/diff.py are correct "
    "(C17 and C18 compare them with central differences)",
    "runs are followed for a few iterations, to a relative accuracy of 1e-6, "
    "and until the gradient is 1e-5 of the first or the cost settles",
]
BACKENDS = ("numpy", *diff.BACKENDS)
CONFIGS = ("sd", "sd-ad", "cg-HestenesStiefel", "cg-PolakRibiere", "tr",
           "pso")
R, C = False, True


def worlds():
    """name -> (instance, argument shapes, compact)"""
    from .. import zoo

    return {
        "Euclidean": (zoo._euclid(3), [((3,), R)], False),
        "ComplexEuclidean": (zoo._ceuclid(2, 2), [((2, 2), C)], False),
        "Sphere": (zoo._sphere(3), [((3,), R)], True),
        "Stiefel": (zoo._stiefel(3, 2), [((3, 2), R)], True),
        "Grassmann": (zoo._grass(4, 2), [((4, 2), R)], True),
        "ComplexGrassmann": (zoo._grass(3, 1, 1, True), [((3, 1), C)], True),
        "Circle": (zoo._circle(3), [((3,), C)], True),
        "Positive": (zoo._positive(2, 2), [((2, 2), R)], False),
        "PD": (zoo._pd("SymmetricPositiveDefinite", 2), [((2, 2), R)], False),
        "HPD": (zoo._pd("HermitianPositiveDefinite", 2), [((2, 2), C)],
                False),
        "SO": (zoo._group(3), [((3, 3), R)], True),
        "Unitary": (zoo._group(2, 1, "qr", True), [((2, 2), C)], True),
        "Oblique": (zoo._oblique(3, 2), [((3, 2), R)], True),
        "Stack": (zoo._stiefel(3, 2, 2), [((2, 3, 2), R)], True),
        "FixedRank": (zoo.FixedRankInst(4, 3, 2),
                      [((4, 2), R), ((2,), R), ((2, 3), R)], False),
        "Product": (zoo.ProductInst([zoo._sphere(3), zoo._circle(2)]),
                    [((3,), R), ((2,), C)], True),
        "Mixed": (zoo.ProductInst([zoo._euclid(2), zoo._stiefel(3, 2),
                                   zoo._sphere(3)]),
                  [((2,), R), ((3, 2), R), ((3,), R)], False),
        "Single": (zoo.ProductInst([zoo._sphere(3)]), [((3,), R)], True),
    }


def programs(specs, compact, deep):
    """Every term of the grammar that fits, made coercive where needed."""
    out = []
    for term in diff.all_terms(specs):
        name = type(term).__name__
        if name in ("Rows",) and specs[term.where[0]][0][0] < 2:
            continue
        terms = [term]
        if not compact:
            for i in range(len(specs)):
                terms += [diff.Square(specs, (i,)), diff.Quartic(specs, (i,))]
        elif name not in ("Linear", "Matrix"):
            terms.append(diff.Linear(specs, (0,)))
        out.append(diff.Program(specs, terms))
    return out if deep else out[::3]


def cases(tier):
    deep = tier == "thorough"
    names = ("Euclidean", "ComplexEuclidean", "Sphere", "Stiefel",
             "Grassmann", "ComplexGrassmann", "Circle", "Positive", "PD",
             "HPD", "SO", "Unitary", "Oblique", "Stack", "FixedRank",
             "Product", "Mixed", "Single")
    out = []
    for backend in ("tensorflow", "jax", "pytorch", "autograd", "numpy"):
        slow = backend in ("tensorflow", "jax")
        shards = [[n] for n in names] if deep else (
            [list(names[i::3]) for i in range(3)] if slow
            else [list(names)])
        for shard in shards:
            out.append({"id": f"{backend}/{'+'.join(shard)}"[:80],
                        "backend": backend, "worlds": shard, "deep": deep})
    return out


def run_case(case, rec):
    backend = case["backend"]
    diff.load("autograd" if backend == "numpy" else backend)
    for name in case["worlds"]:
        world(case, rec, backend, name)


class Plan:
    """One cost with its exact derivatives, on one manifold."""

    def __init__(self, inst, specs, program, backend):
        import pymanopt

        from .. import opt

        self.inst, self.program, self.backend = inst, program, backend
        self.n = len(specs)
        self.man = man = inst.make()
        lay = man.point_layout
        plain = pymanopt.function.numpy(man)

        def single(values):
            return values[0] if lay == 1 else values

        self.cost = plain(lambda *a: program.value(list(a)))
        self.egrad = plain(lambda *a: single(program.grad(list(a))))
        self.ehess = plain(lambda *a: single(program.hess(
            list(a[:self.n]), list(a[self.n:]))))

        def rgrad(*a):
            x = opt.nest(a, lay)
            g = man.euclidean_to_riemannian_gradient(
                x, group(program.grad(list(a)), lay))
            return single(list(opt.unnest(g, lay)))

        def rhess(*a):
            x, v = opt.nest(a[:self.n], lay), opt.nest(a[self.n:], lay)
            v = single_vector(inst, x, v, lay)
            e = man.embedding(x, v)
            flat = list(opt.unnest(e, lay))
            h = man.euclidean_to_riemannian_hessian(
                x, group(program.grad(list(a[:self.n])), lay),
                group(program.hess(list(a[:self.n]), flat), lay), v)
            return single(list(opt.unnest(h, lay)))

        self.rgrad, self.rhess = plain(rgrad), plain(rhess)
        self.auto = None
        if backend != "numpy":
            decorate = getattr(pymanopt.function, backend)
            self.auto = decorate(man)(program.function(
                diff.Ops(backend), "named"))

    def sources(self, second):
        """label -> options of the problem; the first is the reference."""
        out = {"exact": (self.cost, {"euclidean_gradient": self.egrad})}
        if second:
            out["exact"][1]["euclidean_hessian"] = self.ehess
        if self.backend == "numpy":
            options = {"riemannian_gradient": self.rgrad}
            out["riemannian"] = (self.cost, options)
            if second:
                options["riemannian_hessian"] = self.rhess
                out["eg-rh"] = (self.cost, {
                    "euclidean_gradient": self.egrad,
                    "riemannian_hessian": self.rhess})
            return out
        out["automatic"] = (self.auto, {})
        out["rgradient"] = (self.auto, {"riemannian_gradient": self.rgrad})
        if second:
            out["gradient"] = (self.auto, {"euclidean_gradient": self.egrad})
            out["hessian"] = (self.auto, {"euclidean_hessian": self.ehess})
            out["rhessian"] = (self.auto, {"riemannian_hessian": self.rhess})
        return out


def group(values, lay):
    from .. import opt

    return opt.nest(values, lay)


def single_vector(inst, x, v, lay):
    """The manifold's own type of tangent vectors."""
    if type(lay) is int and lay == 1:
        return v
    return inst.get().zero_vector(x) + v


def world(case, rec, backend, name):
    import pymanopt

    from .. import geo, opt

    inst, specs, compact = worlds()[name]
    slow = backend in ("tensorflow", "jax")
    for index, program in enumerate(programs(specs, compact, case["deep"])):
        if slow and not case["deep"] and index % 2:
            continue
        plan = Plan(inst, specs, program, backend)
        for number, config in enumerate(CONFIGS):
            second = config == "tr"
            if second and "hessian" in inst.lacks or (
                    config[:2] == "cg" and "transport" in inst.lacks) or (
                    config == "pso" and ({"log", "transport"} & inst.lacks)):
                continue
            if not case["deep"] and (index + number) % (
                    3 if slow else 2) and not second:
                continue
            if config == "pso" and name in ("Unitary", "SO", "PD", "HPD"):
                continue  # the matrix logarithm may draw random numbers
            start = begin(inst, config)
            runs = {}
            for label, (cost, options) in plan.sources(second).items():
                problem = pymanopt.Problem(plan.man, cost, **options)
                np.random.seed(7)
                runs[label] = opt.build(
                    config, max_iterations=5, log_verbosity=1,
                    min_gradient_norm=1e-9, min_step_size=0.0).run(
                        problem, initial_point=geo.copy(start))
                rec.trace()
                rec.step(runs[label].iterations)
                rec.state((backend, name, program.name, config, label))
            for label in list(runs)[1:]:
                problem = compare(rec, runs["exact"], runs[label], start)
                rec.check(problem is None, f"{backend}/{name}/{label}",
                          lambda: f"{config} on {program.name}: {problem}",
                          nontrivial=(program.name, config))


def begin(inst, config):
    from .. import opt

    if inst.kind == "product" or inst.kind == "fixedrank" or config == "pso":
        return opt.start_for(inst, config)
    return opt.start_for(inst, config, which=1)


def compare(rec, a, b, start):
    """What differs between two runs, or None."""
    from .. import opt, zoo

    u, v = a.log["iterations"], b.log["iterations"]
    if set(u) != set(v):
        return f"logs of {sorted(u)} and {sorted(v)}"
    first = None
    previous = None
    for i, (f, g) in enumerate(zip(u["cost"], v["cost"])):
        x, y = u["point"][i], v["point"][i]
        if "gradient_norm" in u:
            s, t = float(u["gradient_norm"][i]), float(v["gradient_norm"][i])
            first = s if first is None else first
            if i and (s <= 1e-5 * (1 + first) or previous is not None and
                      abs(f - previous) <= 1e-9 * (1 + abs(f))):
                rec.outcome("converged")
                return None
            if not opt.close(s, t, 1e-6):
                return f"gradient norms {s} and {t} in iteration {i}"
        if not opt.close(float(f), float(g), 1e-6):
            return f"costs {f} and {g} in iteration {i}"
        if kinds(x) != kinds(y):
            return f"points of {kinds(x)} and {kinds(y)}"
        if zoo.gap(x, y) > 1e-6 * max(1.0, zoo.nrm(x)):
            return f"points {x!r} and {y!r} in iteration {i}"
        previous = f
    rec.outcome("followed to the end")
    if (a.iterations, a.cost_evaluations) != (
            b.iterations, b.cost_evaluations):
        return (f"{a.iterations} iterations and {a.cost_evaluations} "
                f"evaluations, not {b.iterations} and {b.cost_evaluations}")
    if kinds(a.point) != kinds(b.point) or zoo.gap(
            a.point, b.point) > 1e-6 * max(1.0, zoo.nrm(a.point)):
        return f"results {a.point!r} and {b.point!r}"
    if not opt.close(float(a.cost), float(b.cost), 1e-6):
        return f"final costs {a.cost} and {b.cost}"
    return None


def kinds(x):
    """The structure and the types of the arrays of a point."""
    if isinstance(x, np.ndarray):
        return x.shape, x.dtype.str
    return tuple(kinds(p) for p in x)
