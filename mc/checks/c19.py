"""Problem passes arguments and derivatives faithfully."""
import itertools

import autograd.numpy as anp
import numpy as np

import pymanopt

from .. import core, geo, opt, zoo

ID = "C19"
LEVEL = "model_checking"
RULE = (
    "state = (manifold layout, how the functions take and return their "
    "arguments, which derivatives the user supplied, order in which the "
    "operators are first accessed, history of evaluations); transitions = one "
    "operator evaluation; the arguments every user function receives and the "
    "value and structure every operator returns are compared with a reference"
)
ASSUMPTIONS = [
    "the manifolds' own conversions and embeddings are those decided by C02, "
    "C08 and C09",
    "the autograd backend stands for the automatic ones here; the backends "
    "themselves are decided by C17 and C18",
]

OPERATORS = ("cost", "egrad", "rgrad", "ehess", "rhess")
NAMES = {"cost": "cost", "egrad": "euclidean_gradient",
         "rgrad": "riemannian_gradient", "ehess": "euclidean_hessian",
         "rhess": "riemannian_hessian"}


def _insts():
    return {
        "array": zoo._euclid(2),
        "matrix": zoo._stiefel(3, 2),
        "stack": zoo._sphere(3),
        "group": zoo._group(3),
        "groups": zoo._group(2, 2),
        "complex": zoo._circle(2),
        "quotient": zoo._grass(3, 1, 1, True),
        "cgroup": zoo._group(2, 1, "qr", True),
        "pd": zoo._pd("SymmetricPositiveDefinite", 2),
        "triple": zoo.FixedRankInst(4, 3, 2),
        "square": zoo.FixedRankInst(3, 3, 3),
        "single": zoo.ProductInst([zoo._sphere(3)]),
        "pair": zoo.ProductInst([zoo._sphere(3), zoo._euclid(2)]),
        "equal": zoo.ProductInst([zoo._euclid(2), zoo._euclid(2)]),
        "three": zoo.ProductInst(
            [zoo._group(2), zoo._euclid(2, 2), zoo._circle(2)]),
        "nested": zoo.ProductInst([zoo.FixedRankInst(4, 3, 2)]),
        "front": zoo.ProductInst([zoo.FixedRankInst(4, 3, 2),
                                  zoo._euclid(3)]),
        "back": zoo.ProductInst([zoo._group(3), zoo.FixedRankInst(3, 3, 1)]),
        "twice": zoo.ProductInst([zoo.FixedRankInst(3, 2, 1), zoo._sphere(2),
                                  zoo.FixedRankInst(2, 3, 1)]),
    }


def cases(tier):
    out = []
    for name in _insts():
        for style, g in itertools.product(
                ("named", "variadic"), ("none", "E", "R")):
            out.append({"id": f"{name}/{style}/{g}", "inst": name,
                        "style": style, "g": g, "deep": tier == "thorough"})
    for a, b in (("stack", "sphere-plane"), ("pair", "equal-shapes")):
        out.append({"id": f"shared/{a}", "shared": b, "inst": a,
                    "style": "named", "deep": tier == "thorough"})
    return out


class Reference:
    """f = 1/2 sum W|x|^2 + 1/2 (sum Re<V,x>)^2 over the flat arguments."""

    def __init__(self, inst, x):
        self.lay = inst.get().point_layout
        args = opt.unnest(x, self.lay)
        r = zoo.rng(inst.name, "c19")
        self.n = len(args)
        self.w = [r.uniform(0.5, 2.0, size=np.shape(a)) for a in args]
        self.v = [zoo.rnd(r, np.shape(a), np.iscomplexobj(a)) for a in args]
        # components of a tangent vector may differ in shape from a point's
        self.b = [zoo.rnd(r, np.shape(a), np.iscomplexobj(a))
                  for a in opt.unnest(inst.get().zero_vector(x), self.lay)]

    def t(self, args):
        total = 0.0
        for v, a in zip(self.v, args):
            total = total + anp.sum(anp.real(anp.conj(v) * a))
        return total

    def cost(self, *args):
        total = 0.5 * self.t(args) ** 2
        for w, a in zip(self.w, args):
            total = total + 0.5 * anp.sum(
                w * anp.real(a * anp.conj(a)))
        return total

    def grad(self, *args):
        t = self.t(args)
        return [w * a + t * v for w, v, a in zip(self.w, self.v, args)]

    def hess(self, *args):
        es = args[self.n:]
        t = self.t(es)
        return [w * e + t * v for w, v, e in zip(self.w, self.v, es)]


    def rgrad(self, *args):
        return [(1 + self.t(args)) * b for b in self.b]

    def rhess(self, *args):
        t = self.t(args[:self.n])
        return [t * b + 2 * v for b, v in zip(self.b, args[self.n:])]


def restyle(function, count, style):
    """The same function with `count` named parameters, or variadic."""
    if style == "variadic":
        return lambda *args: function(*args)
    names = ", ".join(f"a{i}" for i in range(count))
    return eval(f"lambda {names}: _f({names})", {"_f": function})


class Setup:
    def __init__(self, inst, style, backend, g, h, box):
        self.inst, self.g, self.h = inst, g, h
        self.m = inst.make()
        x = inst.points(generic=1)[-1][1]
        self.ref = ref = Reference(inst, x)
        self.lay = ref.lay
        n = ref.n
        self.calls = []
        dec = getattr(pymanopt.function, backend)(self.m)
        plain = pymanopt.function.numpy(self.m)

        def wrapped(label, function, factor):
            def user(*args):
                if not any("Box" in type(a).__name__ for a in args):
                    self.calls.append((label, args))
                out = function(*args)
                if factor is None:
                    return out
                out = [factor * o for o in out]
                return out[0] if n == 1 and self.lay == 1 else box(out)
            return user

        options = {}
        if g == "E":
            options["euclidean_gradient"] = plain(restyle(
                wrapped("egrad", ref.grad, 3.0), n, style))
        if g == "R":
            options["riemannian_gradient"] = plain(restyle(
                wrapped("rgrad", ref.rgrad, 5.0), n, style))
        if h == "E":
            options["euclidean_hessian"] = plain(restyle(
                wrapped("ehess", ref.hess, 7.0), 2 * n, style))
        if h == "R":
            options["riemannian_hessian"] = plain(restyle(
                wrapped("rhess", ref.rhess, 11.0), 2 * n, style))
        self.cost = dec(restyle(wrapped("cost", ref.cost, None), n, style))
        self.options = options
        self.auto = backend != "numpy"
        self.problem = pymanopt.Problem(self.m, self.cost, **options)
        hess = "hessian" not in inst.lacks
        self.available = ["cost"]
        if g == "E" or self.auto:
            self.available.append("egrad")
        if g or self.auto:
            self.available.append("rgrad")
        if h == "E" or self.auto and hess:
            self.available.append("ehess")
        if h == "R" or hess and (h == "E" or self.auto) and (
                g == "E" or self.auto):
            self.available.append("rhess")
        if not hess and "ehess" in self.available:
            self.available.remove("ehess")

    # reference values
    def expected(self, op, x, v):
        lay, ref = self.lay, self.ref
        args = opt.unnest(x, lay)
        m = self.inst.get()
        eg = opt.nest([(3.0 if self.g == "E" else 1.0) * o
                       for o in ref.grad(*args)], lay)
        if op == "cost":
            return float(ref.cost(*args))
        if op == "egrad":
            return eg
        if op == "rgrad":
            if self.g == "R":
                return opt.nest([5.0 * o for o in ref.rgrad(*args)], lay)
            return m.euclidean_to_riemannian_gradient(x, eg)
        if op == "rhess" and self.h == "R":
            return opt.nest([11.0 * o for o in ref.rhess(
                *args, *opt.unnest(v, lay))], lay)
        eh = opt.nest([(7.0 if self.h == "E" else 1.0) * o for o in ref.hess(
            *args, *opt.unnest(self.inst.embed(x, v), lay))], lay)
        if op == "ehess":
            return eh
        return m.euclidean_to_riemannian_hessian(x, eg, eh, v)

    def passed(self, label, x, v):
        """The arguments the user function must see."""
        args = opt.unnest(x, self.lay)
        if label == "ehess":
            args = args + opt.unnest(self.inst.embed(x, v), self.lay)
        if label == "rhess":
            args = args + opt.unnest(v, self.lay)
        return args


def structured(value, like, lay):
    """Same nesting as a point: one entry per factor, arrays inside."""
    if isinstance(lay, (tuple, list)):
        return isinstance(value, (list, tuple)) and len(value) == len(
            lay) and all(structured(p, q, k)
                         for p, q, k in zip(value, like, lay))
    if lay == 1:
        return not isinstance(value, (list, tuple)) and np.shape(
            value) == np.shape(like)
    return isinstance(value, (list, tuple)) and len(value) == lay


def evaluate(s, op, x, v):
    f = getattr(s.problem, NAMES[op])
    return f(x) if op in ("cost", "egrad", "rgrad") else f(x, v)


def judge(rec, s, op, x, v, label, how):
    s.calls.clear()
    before = geo.copy(x), geo.copy(v)
    got = evaluate(s, op, x, v)
    want = s.expected(op, x, v)
    rec.step()
    rec.evaluations += 3
    if op == "cost":
        good = np.ndim(got) == 0 and abs(got - want) <= 1e-12 * max(
            1, abs(want))
    else:
        good = zoo.gap(zoo.flat(got), zoo.flat(want)) <= 1e-11 * max(
            1, zoo.nrm(want))
        # Euclidean derivatives at a fixed-rank point may be sequences
        point = x if op in ("egrad", "ehess") else want
        rec.check(structured(got, point, s.lay), f"{label}/{op}/structure",
                  lambda: f"{how}: {type(got).__name__} {got}",
                  nontrivial=how)
        if op in ("rgrad", "rhess"):
            both = 2 * got + got
            rec.check(zoo.gap(zoo.flat(both), 3 * zoo.flat(got))
                      <= 1e-12 * max(1, zoo.nrm(both)),
                      f"{label}/{op}/arithmetic",
                      lambda: f"{how}: 2 g + g = {both} for g = {got}",
                      nontrivial=how)
    rec.check(good, f"{label}/{op}/value",
              lambda: f"{how}: got {got}, expected {want}", nontrivial=how)
    rec.check(zoo.gap(x, before[0]) == 0 and
              zoo.gap(list(v) if isinstance(v, tuple) else v,
                      list(before[1]) if isinstance(before[1], tuple)
                      else before[1]) == 0,
              f"{label}/{op}/argument-modified", lambda: f"{how}",
              nontrivial=how)
    for name, args in s.calls:
        want = s.passed(name, x, v)
        ok = len(args) == len(want) and all(
            isinstance(a, np.ndarray) and np.shape(a) == np.shape(b)
            and zoo.gap(np.asarray(a), np.asarray(b))
            <= 1e-12 * max(1, zoo.nrm(b)) for a, b in zip(args, want))
        rec.check(ok, f"{label}/{name}/arguments",
                  lambda: f"{how}: user function called with {args}, "
                  f"expected {want}", nontrivial=how)
    return got


def run_case(case, rec):
    if "shared" in case:
        return shared(case, rec)
    inst = _insts()[case["inst"]]
    label = case["id"]
    pts = [p for _, p in inst.points(generic=2)][-2:]
    if len(pts) < 2:
        pts = pts * 2
    data = []
    for i, x in enumerate(pts):
        tv = inst.tangents(x, generic=1, maxbasis=1)
        data.append((x, tv[-1][1] if tv else inst.get().zero_vector(x)))
    count = 0
    for backend, g, h, box in itertools.product(
            ("autograd", "numpy"),
            (None if case["g"] == "none" else case["g"],),
            (None, "E", "R"), (list, tuple)):
        if h == "E" and "hessian" in inst.lacks:
            continue
        if box is tuple and not (g or h):
            continue

        def make():
            return Setup(inst, case["style"], backend, g, h, box)

        how = f"{backend}, gradient {g}, Hessian {h}, {box.__name__}"
        ops = make().available
        # every order of first access, two evaluations each
        orders = itertools.permutations(ops) if (
            case["deep"] or box is list and case["style"] == "named"
            and case["inst"] in ("group", "complex", "triple", "three",
                                 "single", "twice")) else [ops, ops[::-1]]
        for order in orders:
            s = make()
            kept = []
            for op in order:
                x, v = data[count % 2]
                count += 1
                got = judge(rec, s, op, x, v, label, f"{how}, {order}")
                kept.append((op, got, geo.copy(got)))
            for op, got, copy in kept:
                rec.check(
                    zoo.gap(zoo.flat(got), zoo.flat(copy)) == 0,
                    f"{label}/{op}/earlier-value",
                    lambda: f"{how}: changed by a later evaluation")
            rec.trace()
            rec.state((label, backend, g, h, box.__name__, order))
        # every history of evaluations on one problem
        depth = 3 if case["deep"] else 2
        symbols = [(op, i) for op in ops for i in range(2)]
        s = make()
        if case["style"] == "variadic" and not case["deep"]:
            depth = 1
        for word in itertools.product(symbols, repeat=depth):
            for op, i in word:
                judge(rec, s, op, *data[i], label, f"{how}, after {word}")
            rec.trace()
            rec.state((label, backend, g, h, box.__name__, word))
        # the caller reuses the arrays of points and vectors
        for first, second in itertools.product(ops, repeat=2):
            x, v = geo.copy(data[0])
            judge(rec, s, first, x, v, label, f"{how}, before reuse")
            geo.overwrite([x, v], data[1])
            judge(rec, s, second, x, v, label,
                  f"{how}, array changed after {first}")
            rec.trace()
            rec.state((label, backend, g, h, box.__name__, "reused", first,
                       second))
        # the point may be given as a list or as a tuple
        if s.lay != 1 and inst.kind == "product":
            for x, v in data:
                for kind in (list, tuple):
                    for op in ops:
                        judge(rec, s, op, kind(x), v, label,
                              f"{how}, {kind.__name__}")
        rec.outcome(len(ops))
    precondition(inst, data, rec, label)


def precondition(inst, data, rec, label):
    s = Setup(inst, "named", "autograd", None, None, list)
    seen = []

    def mine(point, vector):
        seen.append((point, vector))
        return 2 * vector

    for given in (None, mine):
        problem = pymanopt.Problem(
            s.m, s.cost, preconditioner=given) if given else s.problem
        for x, v in data:
            out = problem.preconditioner(x, v)
            want = 2 * v if given else v
            rec.check(zoo.gap(zoo.flat(out), zoo.flat(want)) == 0,
                      f"{label}/preconditioner",
                      lambda: f"{out} for {v}", nontrivial=bool(given))
    rec.check(all(zoo.gap(zoo.flat(p), zoo.flat(x)) == 0
                  for (p, _), (x, _) in zip(seen, data)),
              f"{label}/preconditioner-point", "")


def shared(case, rec):
    """Two problems over one set of decorated functions."""
    if case["shared"] == "sphere-plane":
        a, b = zoo._sphere(3), zoo._euclid(3)
    else:
        a = zoo.ProductInst([zoo._sphere(3), zoo._euclid(2)])
        b = zoo.ProductInst([zoo._euclid(3), zoo._euclid(2)])
    label = case["id"]
    for backend, g, h in itertools.product(
            ("autograd", "numpy"), (None, "E"), (None, "E")):
        def make():
            first = Setup(a, "named", backend, g, h, list)
            second = Setup.__new__(Setup)
            second.__dict__.update(first.__dict__)
            second.inst, second.m = b, b.make()
            second.problem = pymanopt.Problem(
                second.m, first.cost, **first.options)
            return first, second

        x = a.points(generic=1)[-1][1]
        v = a.tangents(x, generic=1)[-1][1]
        ops = make()[0].available
        symbols = [(op, i) for op in ops for i in (0, 1)]
        for word in itertools.product(
                symbols, repeat=3 if case["deep"] else 2):
            pair = make()
            for op, i in word:
                w = b.get().zero_vector(x) + v if i else v
                judge(rec, pair[i], op, x, w, label,
                      f"{backend} {g} {h} {word}")
            rec.trace()
            rec.state((label, backend, g, h, word))
    rec.outcome("shared")
