"""Test costs with exact ambient derivatives, per instance kind."""
import numpy as np

from . import zoo
from .zoo import H, rnd, rng


def dot(a, b):
    """Real ambient inner product."""
    if isinstance(a, (list, tuple)):
        return sum(dot(p, q) for p, q in zip(a, b))
    return float(np.real(np.vdot(a, b)))


class Ambient:
    """f(y) = Re<C,y> + 1/2 Re<y, A y> + 1/6 sum of a cubic, on arrays."""

    def __init__(self, name, shape, cplx):
        r = rng(name, "ambient-cost")
        n = int(np.prod(shape))
        self.c = rnd(r, shape, cplx)
        a = rnd(r, (n, n), cplx)
        self.a = (a + H(a)) / np.sqrt(n)
        self.shape = shape
        self.w = r.normal(size=shape)

    def _mul(self, y):
        return (self.a @ y.reshape(-1)).reshape(self.shape)

    def cost(self, y):
        return dot(self.c, y) + 0.5 * dot(y, self._mul(y)) + float(
            np.sum(self.w * np.real(y) ** 3)) / 6

    def grad(self, y):
        return self.c + self._mul(y) + self.w * np.real(y) ** 2 / 2

    def hess(self, y, e):
        return self._mul(e) + self.w * np.real(y) * np.real(e)


class Invariant:
    """g(Y Y^H), for spaces of factors modulo unitary matrices."""

    def __init__(self, name, n, cplx):
        r = rng(name, "invariant-cost")
        self.w = zoo.herm(rnd(r, (n, n), cplx))
        self.b = zoo.herm(rnd(r, (n, n), cplx)) / n

    def cost(self, y):
        p = y @ H(y)
        return 0.5 * dot(self.w, p) + 0.25 * dot(p, self.b @ p @ self.b)

    def _g(self, p):
        return self.w + self.b @ p @ self.b

    def grad(self, y):
        return self._g(y @ H(y)) @ y

    def hess(self, y, e):
        p, q = y @ H(y), e @ H(y) + y @ H(e)
        return self._g(p) @ e + self.b @ q @ self.b @ y


class Stack:
    def __init__(self, costs):
        self.costs = costs

    def cost(self, y):
        return sum(c.cost(p) for c, p in zip(self.costs, y))

    def grad(self, y):
        return self._join(c.grad(p) for c, p in zip(self.costs, y))

    def hess(self, y, e):
        return self._join(
            c.hess(p, q) for c, p, q in zip(self.costs, y, e))

    @staticmethod
    def _join(values):
        return np.stack(list(values))


class ListStack(Stack):
    _join = staticmethod(list)


class FixedRank:
    """f(u diag(s) vt) for f(W) = <C, W> + 1/2 <W, A W B>."""

    def __init__(self, name, m, n):
        r = rng(name, "fixed-rank-cost")
        self.c = rnd(r, (m, n))
        self.a = zoo.sym(rnd(r, (m, m)))
        self.b = zoo.sym(rnd(r, (n, n)))

    def ambient(self, w):
        return self.c + self.a @ w @ self.b

    def cost(self, x):
        u, s, vt = x
        w = (u * s) @ vt
        return dot(self.c, w) + 0.5 * dot(w, self.a @ w @ self.b)

    def grad(self, x):
        u, s, vt = x
        g = self.ambient((u * s) @ vt)
        return g @ vt.T * s, np.diag(u.T @ g @ vt.T).copy(), (
            s[:, None] * (u.T @ g))


def cost_for(inst):
    if inst.kind == "product":
        return ListStack([cost_for(f) for f in inst.factors])
    if inst.kind == "fixedrank":
        return FixedRank(inst.name, inst.mm, inst.nn)
    if isinstance(inst.sl, (zoo.GrassmannS, zoo.PSDS, zoo.ElliptopeS)):
        one = [Invariant((inst.name, i), inst.sl.shape[0], inst.cplx)
               for i in range(inst.k)]
        return one[0] if inst.k == 1 else Stack(one)
    return Ambient(inst.name, inst.shape, inst.cplx)


def quotient(inst):
    return inst.kind == "array" and isinstance(
        inst.sl, (zoo.GrassmannS, zoo.PSDS, zoo.ElliptopeS))
