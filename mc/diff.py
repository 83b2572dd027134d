"""Programs for the automatic differentiation checks.

A program is a sum of terms over named arguments (shape, real or complex).
Every term knows its value in terms of a tiny operation set that each backend
provides, and its exact gradient and Hessian in plain numpy.  This module must
not import pymanopt: the backend is chosen first.
"""
import hashlib
import itertools
import sys

import numpy as np

BACKENDS = ("autograd", "jax", "pytorch", "tensorflow")
PACKAGES = {"jax": "jax", "pytorch": "torch", "tensorflow": "tensorflow",
            "autograd": None}


def load(backend):
    """pymanopt with only the packages of one backend."""
    for package in ("jax", "torch", "tensorflow"):
        if package != PACKAGES[backend] and package not in sys.modules:
            sys.modules[package] = None
    import pymanopt

    return pymanopt


def rng(*seed):
    d = hashlib.sha256(repr(seed).encode()).digest()
    return np.random.default_rng(int.from_bytes(d[:8], "little"))


def rnd(r, shape, cplx):
    a = r.normal(size=shape)
    return a + 1j * r.normal(size=shape) if cplx else a


def re_dot(a, b):
    return float(np.real(np.sum(np.conj(a) * b)))


# -- operations of the backends ---------------------------------------------


class Ops:
    """sum, real, conj, exp, sin, sqrt, log, matmul, inv, take, const."""

    def __init__(self, backend):
        self.backend = backend
        if backend in ("autograd", "jax"):
            if backend == "autograd":
                import autograd.numpy as lib
            else:
                import jax.numpy as lib
            for name in ("sum", "real", "conj", "exp", "sin", "sqrt", "log",
                         "matmul"):
                setattr(self, name, getattr(lib, name))
            self.inv = lib.linalg.inv
            self.take = lambda a, i: a[np.array(i)]
            self.const = lambda c: c
        elif backend == "pytorch":
            import torch

            for name in ("sum", "real", "conj", "exp", "sin", "sqrt", "log",
                         "matmul"):
                setattr(self, name, getattr(torch, name))
            self.inv = torch.linalg.inv
            self.take = lambda a, i: a[torch.tensor(i)]
            self.const = torch.from_numpy
        else:
            import tensorflow as tf

            self.sum = tf.reduce_sum
            for name in ("real", "conj", "exp", "sin", "sqrt", "log"):
                setattr(self, name, getattr(tf.math, name))
            self.matmul = tf.linalg.matmul
            self.inv = tf.linalg.inv
            self.take = tf.gather
            self.const = tf.constant


# -- terms ------------------------------------------------------------------


class Term:
    count = 1

    def __init__(self, specs, where):
        """specs: (shape, cplx) of all arguments; where: indices it uses."""
        self.where = where
        self.specs = [specs[i] for i in where]
        r = rng(type(self).__name__, self.specs, where)
        self.c = [rnd(r, s, z) for s, z in self.specs]
        self.w = [r.uniform(0.5, 2, size=s) for s, _ in self.specs]

    @classmethod
    def fits(cls, specs):
        return True

    def constants(self, o):
        return [o.const(c) for c in self.c], [o.const(w) for w in self.w]

    def features(self, o, c, args):
        return [o.sum(o.real(o.conj(k) * a)) for k, a in zip(c, args)]

    def s(self, xs):
        return [re_dot(c, x) for c, x in zip(self.c, xs)]


class Linear(Term):
    def value(self, o, c, w, a):
        return o.sum(o.real(o.conj(c[0]) * a))

    def grad(self, a):
        return [self.c[0]]

    def hess(self, a, e):
        return [0 * e]


class Square(Term):
    def value(self, o, c, w, a):
        return o.sum(w[0] * o.real(a * o.conj(a))) / 2

    def grad(self, a):
        return [self.w[0] * a]

    def hess(self, a, e):
        return [self.w[0] * e]


class Cube(Term):
    def value(self, o, c, w, a):
        return o.sum(w[0] * o.real(a) ** 3) / 6

    def grad(self, a):
        return [self.w[0] * np.real(a) ** 2 / 2]

    def hess(self, a, e):
        return [self.w[0] * np.real(a) * np.real(e)]


class Holomorphic(Term):
    def value(self, o, c, w, a):
        return o.real(o.sum(c[0] * a * a)) / 2

    def grad(self, a):
        return [np.conj(self.c[0] * a)]

    def hess(self, a, e):
        return [np.conj(self.c[0] * e)]


class Exponential(Term):
    def value(self, o, c, w, a):
        return o.sum(w[0] * o.exp(o.real(a)))

    def grad(self, a):
        return [self.w[0] * np.exp(np.real(a))]

    def hess(self, a, e):
        return [self.w[0] * np.exp(np.real(a)) * np.real(e)]


class Hyperbolic(Term):
    def value(self, o, c, w, a):
        return o.sum(o.sqrt(1 + o.real(a * o.conj(a))))

    def grad(self, a):
        return [a / np.sqrt(1 + np.abs(a) ** 2)]

    def hess(self, a, e):
        s = np.sqrt(1 + np.abs(a) ** 2)
        return [e / s - a * np.real(np.conj(a) * e) / s**3]


class Quartic(Term):
    def value(self, o, c, w, a):
        return o.sum(o.real(a * o.conj(a))) ** 2 / 4

    def grad(self, a):
        return [re_dot(a, a) * a]

    def hess(self, a, e):
        return [re_dot(a, a) * e + 2 * re_dot(a, e) * a]


class Logarithm(Term):
    def value(self, o, c, w, a):
        return o.log(1 + o.sum(o.real(a * o.conj(a))))

    def grad(self, a):
        return [2 * a / (1 + re_dot(a, a))]

    def hess(self, a, e):
        n = 1 + re_dot(a, a)
        return [2 * e / n - 4 * a * re_dot(a, e) / n**2]


class Rows(Term):
    """Repeated rows, as in matrix completion."""

    ROWS = (1, 0, 1)

    def _c(self):
        return self.c[0][list(self.ROWS)]

    def constants(self, o):
        return [o.const(self._c())], []

    def value(self, o, c, w, a):
        b = o.take(a, list(self.ROWS))
        d = b - c[0]
        return o.sum(o.real(d * o.conj(d))) / 2

    def _scatter(self, b):
        out = np.zeros(self.specs[0][0], dtype=b.dtype)
        np.add.at(out, list(self.ROWS), b)
        return out

    def grad(self, a):
        return [self._scatter(a[list(self.ROWS)] - self._c())]

    def hess(self, a, e):
        return [self._scatter(e[list(self.ROWS)])]


class Element(Term):
    """A single entry, by indexing."""

    def value(self, o, c, w, a):
        b = o.real(a[(0,) * len(self.specs[0][0])])
        return b * b * b / 3 + b

    def grad(self, a):
        out = np.zeros(a.shape)
        i = (0,) * a.ndim
        out[i] = np.real(a[i]) ** 2 + 1
        return [out]

    def hess(self, a, e):
        out = np.zeros(a.shape)
        i = (0,) * a.ndim
        out[i] = 2 * np.real(a[i]) * np.real(e[i])
        return [out]


class Matrix(Term):
    """Re tr(a^H A a) / 2 with Hermitian A."""

    @classmethod
    def fits(cls, specs):
        return len(specs[0][0]) == 2

    def __init__(self, specs, where):
        super().__init__(specs, where)
        (m, _), z = self.specs[0]
        a = rnd(rng("matrix", m, z), (m, m), z)
        self.a = (a + a.conj().T) / 2

    def constants(self, o):
        return [o.const(self.a)], []

    def value(self, o, c, w, a):
        return o.sum(o.real(o.conj(a) * o.matmul(c[0], a))) / 2

    def grad(self, a):
        return [self.a @ a]

    def hess(self, a, e):
        return [self.a @ e]


class Inverse(Term):
    """Re tr(C (3 + a)^-1)."""

    @classmethod
    def fits(cls, specs):
        shape = specs[0][0]
        return len(shape) == 2 and shape[0] == shape[1]

    def _eye(self):
        return 3 * np.eye(self.specs[0][0][0], dtype=self.c[0].dtype)

    def constants(self, o):
        return [o.const(np.ascontiguousarray(self.c[0].T)),
                o.const(self._eye())], []

    def value(self, o, c, w, a):
        return o.sum(o.real(c[0] * o.inv(c[1] + a)))

    def grad(self, a):
        i = np.linalg.inv(self._eye() + a)
        return [-(i @ self.c[0] @ i).conj().T]

    def hess(self, a, e):
        i = np.linalg.inv(self._eye() + a)
        c = self.c[0]
        return [(i @ e @ i @ c @ i + i @ c @ i @ e @ i).conj().T]


class Hadamard(Term):
    """Re <a, D b> for arguments of equal shape and type."""

    count = 2

    @classmethod
    def fits(cls, specs):
        return specs[0] == specs[1]

    def value(self, o, c, w, a, b):
        return o.sum(o.real(o.conj(a) * c[0] * b))

    def grad(self, a, b):
        return [self.c[0] * b, np.conj(self.c[0]) * a]

    def hess(self, a, b, e, f):
        return [self.c[0] * f, np.conj(self.c[0]) * e]


class Product(Term):
    count = 2

    def value(self, o, c, w, a, b):
        s, t = self.features(o, c, (a, b))
        return s * t

    def grad(self, a, b):
        s, t = self.s((a, b))
        return [t * self.c[0], s * self.c[1]]

    def hess(self, a, b, e, f):
        s, t = self.s((e, f))
        return [t * self.c[0], s * self.c[1]]


class Sine(Term):
    count = 2

    def value(self, o, c, w, a, b):
        s, t = self.features(o, c, (a, b))
        return o.sin(s + t)

    def grad(self, a, b):
        u = np.cos(sum(self.s((a, b))))
        return [u * c for c in self.c]

    def hess(self, a, b, e, f):
        u = -np.sin(sum(self.s((a, b)))) * sum(self.s((e, f)))
        return [u * c for c in self.c]


class HalfLinear(Term):
    """Linear in the second argument, nonlinear in the first."""

    count = 2

    def value(self, o, c, w, a, b):
        t = self.features(o, c, (a, b))[1]
        return t * o.sum(o.real(a * o.conj(a)))

    def grad(self, a, b):
        t = self.s((a, b))[1]
        return [2 * t * a, re_dot(a, a) * self.c[1]]

    def hess(self, a, b, e, f):
        t, u = self.s((a, b))[1], self.s((e, f))[1]
        return [2 * t * e + 2 * u * a, 2 * re_dot(a, e) * self.c[1]]


class Triple(Term):
    count = 3

    def value(self, o, c, w, *args):
        s, t, u = self.features(o, c, args)
        return s * t * u

    def grad(self, *args):
        s, t, u = self.s(args)
        return [t * u * self.c[0], s * u * self.c[1], s * t * self.c[2]]

    def hess(self, *args):
        s, t, u = self.s(args[:3])
        p, q, r = self.s(args[3:])
        return [(q * u + t * r) * self.c[0], (p * u + s * r) * self.c[1],
                (p * t + s * q) * self.c[2]]


ONE = (Linear, Square, Cube, Holomorphic, Exponential, Hyperbolic, Quartic,
       Logarithm, Rows, Element, Matrix, Inverse)
MORE = (Hadamard, Product, Sine, HalfLinear, Triple)


class Program:
    def __init__(self, specs, terms):
        self.specs = specs
        self.terms = terms
        self.name = "+".join(
            f"{type(t).__name__}{''.join(map(str, t.where))}" for t in terms)

    def _real(self, i, v):
        shape, cplx = self.specs[i]
        return v.astype(complex) if cplx else np.real(v).astype(float)

    def _collect(self, parts):
        out = [np.zeros(s, dtype=complex) for s, _ in self.specs]
        for term, values in parts:
            for i, v in zip(term.where, values):
                out[i] = out[i] + v
        return [self._real(i, v) for i, v in enumerate(out)]

    def used(self):
        return {i for t in self.terms for i in t.where}

    def grad(self, args):
        return self._collect((t, t.grad(*[args[i] for i in t.where]))
                             for t in self.terms)

    def hess(self, args, vectors):
        return self._collect((t, t.hess(*[args[i] for i in t.where],
                                        *[vectors[i] for i in t.where]))
                             for t in self.terms)

    def function(self, o, style):
        """The program as a function of the backend."""
        ready = [(t, *t.constants(o)) for t in self.terms]

        def body(args):
            total = 0.0
            for t, c, w in ready:
                total = total + t.value(o, c, w, *[args[i] for i in t.where])
            return total

        if style == "variadic":
            return lambda *args: body(args)
        names = ", ".join(f"a{i}" for i in range(len(self.specs)))
        return eval(f"lambda {names}: _b(({names},))", {"_b": body})

    def value(self, args):
        """The cost in plain numpy."""
        o = Plain()
        return float(sum(
            t.value(o, *t.constants(o), *[args[i] for i in t.where])
            for t in self.terms))


class Plain:
    const = staticmethod(lambda c: c)
    sum, real, conj = map(staticmethod, (np.sum, np.real, np.conj))
    exp, sin, sqrt, log = map(staticmethod, (np.exp, np.sin, np.sqrt, np.log))
    matmul, inv = map(staticmethod, (np.matmul, np.linalg.inv))
    take = staticmethod(lambda a, i: a[np.array(i)])


# -- the family -------------------------------------------------------------

R, C = False, True
LAYOUTS = {
    "unary": [(((3,), R),), (((3,), C),), (((2, 3), R),), (((2, 2), R),),
              (((2, 2), C),), (((2, 2, 2), R),), (((2, 1, 2), C),)],
    "binary": [(((3,), R), ((3,), R)), (((3,), R), ((2, 2), C)),
               (((2, 2), C), ((2, 2), C)), (((3,), C), ((3,), R)),
               (((2, 2), R), ((3,), R)), (((2,), R), ((2, 2, 2), R))],
    "ternary": [(((3,), R),) * 3, (((2, 2), C), ((3,), R), ((2, 2), C)),
                (((3,), R), ((2, 2), R), ((2, 3), R)),
                (((2,), R), ((2, 2), C), ((2,), R))],
}


def all_terms(specs):
    out = []
    for cls in ONE:
        for i in range(len(specs)):
            if cls.fits([specs[i]]):
                out.append(cls(specs, (i,)))
    for cls in MORE:
        for where in itertools.permutations(range(len(specs)), cls.count):
            if cls is not HalfLinear and list(where) != sorted(where):
                continue
            if cls.fits([specs[i] for i in where]):
                out.append(cls(specs, where))
    return out


def programs(specs, depth, thin=1):
    """All programs of up to `depth` terms (every thin-th of several)."""
    terms = all_terms(specs)
    yield from (Program(specs, (t,)) for t in terms)
    for size in range(2, depth + 1):
        for n, combo in enumerate(itertools.combinations(terms, size)):
            if n % thin == 0:
                yield Program(specs, combo)


def points(specs, which):
    """Labelled argument tuples."""
    out = []
    for kind in which:
        r = rng("points", specs, kind)
        scale = {"generic": 0.7, "second": 0.7, "zero": 0.0,
                 "large": 2.5}[kind]
        out.append((kind, [scale * rnd(r, s, z) for s, z in specs]))
    return out


def memory(a, kind):
    """The same values in another memory layout."""
    if kind == "fortran":
        return np.asfortranarray(a)
    if kind == "strided":
        big = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
        big[..., ::2] = a
        return big[..., ::2]
    if kind == "reversed":
        return np.ascontiguousarray(a[..., ::-1])[..., ::-1]
    if kind == "readonly":
        b = a.copy()
        b.setflags(write=False)
        return b
    return a.copy()


MEMORY = ("plain", "fortran", "strided", "reversed", "readonly")


# -- running programs on a backend ------------------------------------------


class Session:
    """One backend, one argument layout."""

    def __init__(self, backend, specs):
        self.backend, self.specs = backend, tuple(specs)
        self.pymanopt = load(backend)
        from pymanopt import manifolds

        spaces = [(manifolds.ComplexEuclidean if z else manifolds.Euclidean)(
            *s) for s, z in specs]
        self.single = len(specs) == 1
        self.manifold = spaces[0] if self.single else manifolds.Product(spaces)
        self.ops = Ops(backend)

    def function(self, program, style="named"):
        decorate = getattr(self.pymanopt.function, self.backend)
        return decorate(self.manifold)(program.function(self.ops, style))

    def point(self, args):
        return args[0] if self.single else list(args)

    def parts(self, value):
        """The components of a returned gradient, or None."""
        if self.single:
            return [value] if not isinstance(value, (list, tuple)) else None
        if isinstance(value, np.ndarray):
            return None
        value = list(value)
        return value if len(value) == len(self.specs) else None


def compare(value, want, args):
    """None if `value` is the list of arrays `want`, else what differs."""
    if value is None:
        return "wrong number of components"
    for i, (v, w, a) in enumerate(zip(value, want, args)):
        if not isinstance(v, np.ndarray):
            return f"component {i} is a {type(v).__name__}"
        if v.shape != a.shape:
            return f"component {i} has shape {v.shape}, not {a.shape}"
        if v.dtype != a.dtype:
            return f"component {i} has type {v.dtype}, not {a.dtype}"
    size = max([1.0] + [np.abs(w).max() for w in want])
    gap = max(np.abs(v - w).max() for v, w in zip(value, want))
    if not gap <= 1e-9 * size:
        return f"off by {gap:.3g}: {value} instead of {want}"
    return None


def cases(tier):
    """Shards of (backend, layouts); each runs in a process of its own."""
    out = []
    if tier == "thorough":
        for backend, kind in itertools.product(
                ("tensorflow", "jax", "autograd", "pytorch"),
                ("ternary", "binary", "unary")):
            for i in range(len(LAYOUTS[kind])):
                out.append({"id": f"{backend}/{kind}/{i}", "deep": True,
                            "backend": backend, "layouts": [[kind, i]]})
        return out
    for backend, kinds in (
            ("tensorflow", ("ternary",)), ("tensorflow", ("unary", "binary")),
            ("jax", ("ternary",)), ("jax", ("unary", "binary")),
            ("autograd", ("ternary", "unary")), ("autograd", ("binary",)),
            ("pytorch", ("ternary", "unary")), ("pytorch", ("binary",))):
        # the later layouts differ from the first ones only in shape
        most = 9 if backend in ("autograd", "pytorch") else (
            1 if backend == "tensorflow" and "ternary" in kinds else 2)
        out.append({"id": f"{backend}/{'/'.join(kinds)}", "deep": False,
                    "backend": backend, "layouts": [
                        [k, i] for k in kinds
                        for i in range(len(LAYOUTS[k]))[:most]]})
    return out


def family(case):
    """(label, argument layout, programs)"""
    slow = case["backend"] in ("jax", "tensorflow")
    for kind, i in case["layouts"]:
        specs = LAYOUTS[kind][i]
        if case["deep"]:
            thin = {"unary": 1, "binary": 1, "ternary": 5}[kind]
            thin *= 2 if slow else 1
        else:
            thin = {"unary": 3, "binary": 9, "ternary": 41}[kind]
            thin *= 4 if slow else 1
        yield f"{kind}{i}", specs, list(programs(specs, 2, thin))
