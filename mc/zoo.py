"""Manifold instances together with independent analytic reference models.

Nothing in a reference model calls pymanopt, except that tangent vectors of
the two tuple-like representations (fixed rank, product) are built with the
types that `zero_vector` returns.
"""
import itertools

import numpy as np
import scipy.linalg as sla

import pymanopt.manifolds as pm

H = lambda a: np.conj(np.swapaxes(a, -1, -2))  # noqa: E731
sym = lambda a: (a + a.T) / 2  # noqa: E731
herm = lambda a: (a + H(a)) / 2  # noqa: E731


def rng(*seed):
    import zlib

    return np.random.default_rng(zlib.crc32(repr(seed).encode()))


def flat(a):
    """Real coordinate vector of arrays, tuples and lists of arrays."""
    if isinstance(a, (list, tuple)):
        return np.concatenate([flat(x) for x in a]) if len(a) else np.zeros(0)
    a = np.asarray(a)
    if np.iscomplexobj(a):
        return np.concatenate([a.real.ravel(), a.imag.ravel()])
    return np.asarray(a, dtype=float).ravel()


def nrm(a):
    return float(np.linalg.norm(flat(a)))


def finite(a):
    return bool(np.all(np.isfinite(flat(a))))


def rnd(r, shape, cplx=False):
    a = r.normal(size=shape)
    if cplx:
        a = a + 1j * r.normal(size=shape)
    return a


def orth(a):
    return np.linalg.qr(a)[0]


def gap(a, b):
    """Distance between equally structured values, complex safe."""
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return np.inf
        return float(
            np.sqrt(sum(gap(x, y) ** 2 for x, y in zip(a, b)))
        )
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return np.inf
    d = np.linalg.norm((a - b).ravel())
    return float(d) if np.isfinite(d) else np.inf


# ---------------------------------------------------------------------------
# Slice models: one factor of a (possibly stacked) array manifold.


class Slice:
    cplx = False  # points are complex
    tcplx = None  # tangent vectors are complex (default: like points)
    acplx = None  # ambient vectors are complex
    inj = np.inf
    full_exp = True
    identity_embed = True
    euclidean_metric = True

    shape = None  # of a point
    tshape = None

    def pres(self, x):
        return np.zeros(1)

    def tcon(self, x, v):
        return np.zeros(1)

    def comp(self, x):
        return []

    def inner(self, x, u, v):
        return float(np.real(np.vdot(u, v)))

    def embed(self, x, v):
        return v

    def invariant(self, x):
        return x

    def vinvariant(self, x, v):
        """Representation independent value of a horizontal tangent vector."""
        return v

    def dist(self, x, y):
        raise NotImplementedError

    def exp(self, x, v):
        raise NotImplementedError

    def geodesic(self, x, v):
        """End point of the geodesic, also where the library has no exp."""
        return self.exp(x, v)

    def special(self):
        return []

    def extreme(self):
        """Badly scaled points and points close to degenerate ones."""
        return []

    def dim(self):
        raise NotImplementedError


class EuclideanS(Slice):
    def __init__(self, shape, cplx=False):
        self.shape, self.cplx = tuple(shape), cplx

    def rand(self, r):
        return rnd(r, self.shape, self.cplx)

    def special(self):
        return [np.zeros(self.shape, dtype=complex if self.cplx else float)]

    def extreme(self):
        a = self.rand(rng("extreme", self.shape, self.cplx))
        return [1e6 * a, 1e-9 * a]

    def dist(self, x, y):
        return nrm(x - y)

    def exp(self, x, v):
        return x + v

    def dim(self):
        return int(np.prod(self.shape)) * (2 if self.cplx else 1)


class SymS(EuclideanS):
    sign = 1

    def __init__(self, n):
        super().__init__((n, n))

    def pres(self, x):
        return x - self.sign * x.T

    def tcon(self, x, v):
        return v - self.sign * v.T

    def comp(self, x):
        n = self.shape[0]
        out = []
        for i in range(n):
            for j in range(i + 1, n):
                e = np.zeros((n, n))
                e[i, j], e[j, i] = 1, -self.sign
                out.append(e)
        if self.sign == -1:
            out += [np.diag(np.eye(n)[i]) for i in range(n)]
        return out

    def rand(self, r):
        a = rnd(r, self.shape)
        return a + self.sign * a.T

    def dim(self):
        n = self.shape[0]
        return n * (n + self.sign) // 2


class SkewS(SymS):
    sign = -1


class SphereS(Slice):
    def __init__(self, shape, projector=None):
        self.shape = tuple(shape)
        self.projector = projector

    def _p(self, a):
        return a if self.projector is None else self.projector @ a

    def pres(self, x):
        out = [np.array([np.vdot(x, x) - 1])]
        if self.projector is not None:
            out.append(x - self.projector @ x)
        return np.concatenate(out)

    def tcon(self, x, v):
        out = [np.array([np.vdot(x, v)])]
        if self.projector is not None:
            out.append(v - self.projector @ v)
        return np.concatenate(out)

    def comp(self, x):
        out = [x]
        if self.projector is not None:
            out += list((np.eye(len(x)) - self.projector).T)
        return out

    def rand(self, r):
        a = self._p(rnd(r, self.shape))
        return a / nrm(a)

    def special(self):
        if self.projector is not None:
            return []
        a = np.zeros(self.shape)
        a.flat[0] = 1
        b = np.zeros(self.shape)
        b.flat[-1] = -1
        return [a, b]

    inj = np.pi

    def dist(self, x, y):
        return 2 * np.arctan2(nrm(x - y), nrm(x + y))

    def exp(self, x, v):
        t = nrm(v)
        return x if t == 0 else np.cos(t) * x + np.sin(t) * (v / t)

    def dim(self):
        if self.projector is None:
            return int(np.prod(self.shape)) - 1
        return int(round(np.trace(self.projector))) - 1


class ObliqueS(Slice):
    inj = np.pi

    def __init__(self, m, n):
        self.shape = (m, n)

    def pres(self, x):
        return (x * x).sum(0) - 1

    def tcon(self, x, v):
        return (x * v).sum(0)

    def comp(self, x):
        out = []
        for j in range(self.shape[1]):
            e = np.zeros(self.shape)
            e[:, j] = x[:, j]
            out.append(e)
        return out

    def rand(self, r):
        a = rnd(r, self.shape)
        return a / np.linalg.norm(a, axis=0)

    def special(self):
        a = np.zeros(self.shape)
        for j in range(self.shape[1]):
            a[j % self.shape[0], j] = 1
        return [a]

    def dist(self, x, y):
        return np.linalg.norm(
            2 * np.arctan2(
                np.linalg.norm(x - y, axis=0), np.linalg.norm(x + y, axis=0)
            )
        )

    def exp(self, x, v):
        s = SphereS((self.shape[0],))
        return np.stack(
            [s.exp(x[:, j], v[:, j]) for j in range(self.shape[1])], axis=1
        )

    def dim(self):
        return (self.shape[0] - 1) * self.shape[1]


class CircleS(Slice):
    cplx = True
    inj = np.pi

    def __init__(self, n):
        self.shape = (n,)

    def pres(self, x):
        return np.abs(x) - 1

    def tcon(self, x, v):
        return np.real(np.conj(x) * v)

    def comp(self, x):
        return [x * np.eye(len(x))[i] for i in range(len(x))]

    def rand(self, r):
        return np.exp(1j * r.uniform(-np.pi, np.pi, size=self.shape))

    def special(self):
        return [np.ones(self.shape, dtype=complex),
                1j ** np.arange(self.shape[0])]

    def dist(self, x, y):
        return np.linalg.norm(np.angle(np.conj(x) * y))

    def exp(self, x, v):
        return x * np.exp(1j * np.imag(np.conj(x) * v))

    def dim(self):
        return self.shape[0]


class StiefelS(Slice):
    inj = 0.89 * np.pi

    def __init__(self, n, p):
        self.shape = (n, p)

    def pres(self, x):
        return H(x) @ x - np.eye(self.shape[1])

    def tcon(self, x, v):
        return x.T @ v + v.T @ x

    def comp(self, x):
        p = self.shape[1]
        out = []
        for i in range(p):
            for j in range(i, p):
                s = np.zeros((p, p))
                s[i, j] = s[j, i] = 1
                out.append(x @ s)
        return out

    def rand(self, r):
        return orth(rnd(r, self.shape))

    def special(self):
        return [np.eye(*self.shape), -np.eye(*self.shape)[::-1]]

    def exp(self, x, v):
        p = self.shape[1]
        a = x.T @ v
        s = v.T @ v
        block = np.block([[a, -s], [np.eye(p), a]])
        return (
            np.hstack([x, v]) @ sla.expm(block)[:, :p] @ sla.expm(-a)
        )

    def dim(self):
        n, p = self.shape
        return n * p - p * (p + 1) // 2


class GrassmannS(Slice):
    inj = np.pi / 2

    def __init__(self, n, p, cplx=False):
        self.shape, self.cplx = (n, p), cplx

    def pres(self, x):
        return H(x) @ x - np.eye(self.shape[1])

    def tcon(self, x, v):
        return H(x) @ v

    def comp(self, x):
        p = self.shape[1]
        out = []
        for i in range(p):
            for j in range(p):
                s = np.zeros((p, p))
                s[i, j] = 1
                out.append(x @ s)
                if self.cplx:
                    out.append(1j * (x @ s))
        return out

    def rand(self, r):
        return orth(rnd(r, self.shape, self.cplx))

    def special(self):
        a = np.eye(*self.shape)
        return [a.astype(complex) if self.cplx else a]

    def invariant(self, x):
        return x @ H(x)

    def vinvariant(self, x, v):
        return v @ H(x)

    def dist(self, x, y):
        # sin and cos of the principal angles, accurate at both ends
        s = np.linalg.svd(y - x @ (H(x) @ y), compute_uv=False)[::-1]
        c = np.linalg.svd(H(x) @ y, compute_uv=False)
        p = self.shape[1]
        s = np.sort(np.concatenate([s, np.zeros(max(0, p - len(s)))]))[:p]
        c = np.sort(c)[::-1]
        return np.linalg.norm(np.arctan2(s, c))

    def exp(self, x, v):
        return sla.expm(v @ H(x) - x @ H(v)) @ x

    def dim(self):
        n, p = self.shape
        return p * (n - p) * (2 if self.cplx else 1)


class GroupS(Slice):
    inj = np.pi
    identity_embed = False

    def __init__(self, n, cplx=False):
        self.shape, self.cplx = (n, n), cplx

    def pres(self, x):
        out = [flat(H(x) @ x - np.eye(self.shape[0]))]
        if not self.cplx:
            out.append([np.linalg.det(x) - 1])
        return np.concatenate(out)

    def tcon(self, x, v):
        return v + H(v)

    def comp(self, x):
        n = self.shape[0]
        out = []
        for i in range(n):
            for j in range(i, n):
                s = np.zeros((n, n), dtype=complex if self.cplx else float)
                s[i, j] = s[j, i] = 1
                out.append(x @ s)
                if self.cplx and i != j:
                    t = np.zeros((n, n), dtype=complex)
                    t[i, j], t[j, i] = 1j, -1j
                    out.append(x @ t)
        return out

    def embed(self, x, v):
        return x @ v

    def rand(self, r):
        q = orth(rnd(r, self.shape, self.cplx))
        if not self.cplx and np.linalg.det(q) < 0:
            q[:, 0] *= -1
        return q

    def special(self):
        n = self.shape[0]
        out = [np.eye(n)]
        if n >= 2:
            d = np.eye(n)
            d[0, 0] = d[1, 1] = -1
            out.append(d)
        if self.cplx:
            out = [a.astype(complex) for a in out]
            out.append(np.diag(1j ** np.arange(n)))
        return out

    def dist(self, x, y):
        return np.linalg.norm(np.angle(np.linalg.eigvals(H(x) @ y)))

    def exp(self, x, v):
        return x @ sla.expm(v)

    def dim(self):
        n = self.shape[0]
        return n * n if self.cplx else n * (n - 1) // 2


class PositiveS(Slice):
    euclidean_metric = False

    def __init__(self, m, n):
        self.shape = (m, n)

    def pres(self, x):
        return np.minimum(x, 0)

    def inner(self, x, u, v):
        return float(np.sum(u * v / x**2))

    def rand(self, r):
        return np.exp(rnd(r, self.shape))

    def special(self):
        return [np.ones(self.shape),
                np.linspace(1e-3, 50, int(np.prod(self.shape))).reshape(
                    self.shape)]

    def extreme(self):
        a = np.logspace(-12, 9, max(2, int(np.prod(self.shape))))
        return [a[: int(np.prod(self.shape))].reshape(self.shape),
                1e-9 * self.rand(rng("extreme", self.shape))]

    def dist(self, x, y):
        return nrm(np.log(x / y))

    def exp(self, x, v):
        return x * np.exp(v / x)

    def dim(self):
        return int(np.prod(self.shape))


class PDS(Slice):
    """Symmetric or Hermitian positive definite, optionally det = 1."""

    euclidean_metric = False

    def __init__(self, n, cplx=False, special=False):
        self.shape, self.cplx, self.unit = (n, n), cplx, special

    def pres(self, x):
        out = [flat(x - H(x)), np.minimum(np.linalg.eigvalsh(herm(x)), 0)]
        if self.unit:
            out.append(flat(np.atleast_1d(np.linalg.det(x) - 1)))
        return np.concatenate(out)

    def tcon(self, x, v):
        out = [flat(v - H(v))]
        if self.unit:
            out.append([np.real(np.trace(np.linalg.solve(x, v)))])
        return np.concatenate(out)

    def comp(self, x):
        n = self.shape[0]
        out = []
        for i in range(n):
            for j in range(i, n):
                e = np.zeros((n, n), dtype=complex if self.cplx else float)
                if i != j:
                    e[i, j], e[j, i] = 1, -1
                    out.append(e)
                if self.cplx:
                    f = np.zeros((n, n), dtype=complex)
                    f[i, j] = f[j, i] = 1j
                    out.append(f)
        if self.unit:
            out.append(x)
        return out

    def inner(self, x, u, v):
        xi = np.linalg.inv(x)
        return float(np.real(np.trace(xi @ u @ xi @ v)))

    def _norm(self, x):
        if self.unit:
            x = x / np.real(np.linalg.det(x)) ** (1 / self.shape[0])
        return x

    def rand(self, r):
        q = orth(rnd(r, self.shape, self.cplx))
        d = np.exp(r.normal(size=self.shape[0]))
        return self._norm(herm(q @ np.diag(d) @ H(q)))

    def special(self):
        n = self.shape[0]
        a = np.eye(n)
        b = np.diag(np.logspace(-1.5, 1.5, n)) if n > 1 else np.eye(1)
        out = [a, self._norm(b)]
        return [o.astype(complex) for o in out] if self.cplx else out

    def extreme(self):
        n = self.shape[0]
        q = orth(rnd(rng("extreme", n), self.shape, self.cplx))
        d = np.logspace(-2.5, 2.5, n) if n > 1 else np.array([1e-4])
        out = [self._norm(herm(q @ np.diag(d) @ H(q)))]
        if not self.unit:
            out += [1e-8 * self.rand(rng("extreme", 1, n)),
                    1e8 * self.rand(rng("extreme", 2, n))]
        return out

    def dist(self, x, y):
        c = np.linalg.inv(np.linalg.cholesky(x))
        return np.linalg.norm(np.log(np.linalg.eigvalsh(herm(c @ y @ H(c)))))

    def exp(self, x, v):
        c = np.linalg.cholesky(x)
        ci = np.linalg.inv(c)
        w, q = np.linalg.eigh(herm(ci @ v @ H(ci)))
        return c @ (q * np.exp(w)) @ H(q) @ H(c)

    def dim(self):
        n = self.shape[0]
        return (n * n if self.cplx else n * (n + 1) // 2) - int(self.unit)


class PoincareS(Slice):
    euclidean_metric = False

    def __init__(self, n):
        self.shape = (n,)

    def pres(self, x):
        return np.array([0.0 if np.dot(x, x) < 1 else 1.0])  # open ball

    def inner(self, x, u, v):
        lam = 2 / (1 - np.dot(x, x))
        return float(lam**2 * np.dot(u, v))

    def rand(self, r):
        a = rnd(r, self.shape)
        return a / nrm(a) * r.uniform(0.2, 0.8)

    def special(self):
        a = np.zeros(self.shape)
        b = np.zeros(self.shape)
        b[-1] = -0.9
        return [a, b]

    def extreme(self):
        a = rnd(rng("extreme", self.shape), self.shape)
        return [(1 - t) * a / nrm(a) for t in (1e-3, 1e-6)] + [1e-9 * a]

    # Lorentz model
    @staticmethod
    def _lift(x):
        d = 1 - np.dot(x, x)
        return np.concatenate([[(1 + np.dot(x, x)) / d], 2 * x / d])

    @staticmethod
    def _lower(p):
        return p[1:] / (1 + p[0])

    def dist(self, x, y):
        d = nrm(x - y)
        return 2 * np.arcsinh(
            d / np.sqrt((1 - np.dot(x, x)) * (1 - np.dot(y, y)))
        )

    def exp(self, x, v):
        d = 1 - np.dot(x, x)
        xv = np.dot(x, v)
        w = np.concatenate([[4 * xv / d**2], 2 * v / d + 4 * xv * x / d**2])
        t = np.sqrt(max(np.dot(w[1:], w[1:]) - w[0] ** 2, 0))
        p = self._lift(x)
        return x if t == 0 else self._lower(np.cosh(t) * p + np.sinh(t) * w / t)

    def dim(self):
        return self.shape[0]


class PSDS(Slice):
    def __init__(self, n, k, cplx=False):
        self.shape, self.cplx = (n, k), cplx

    def pres(self, x):
        s = np.linalg.svd(x, compute_uv=False)
        return np.array([max(0.0, 1e-9 - s[-1])])

    def tcon(self, x, v):
        return H(x) @ v - H(v) @ x

    def comp(self, x):
        k = self.shape[1]
        out = []
        for i in range(k):
            for j in range(i, k):
                o = np.zeros((k, k), dtype=complex if self.cplx else float)
                if i != j:
                    o[i, j], o[j, i] = 1, -1
                    out.append(x @ o)
                if self.cplx:
                    o = np.zeros((k, k), dtype=complex)
                    o[i, j] = o[j, i] = 1j
                    out.append(x @ o)
        return out

    def rand(self, r):
        return rnd(r, self.shape, self.cplx)

    def special(self):
        n, k = self.shape
        a = np.eye(n, k) @ np.diag(np.arange(1, k + 1.0))
        return [a.astype(complex) if self.cplx else a]

    def extreme(self):
        a = self.rand(rng("extreme", self.shape, self.cplx))
        q = orth(rnd(rng("extreme", 1, self.shape), self.shape, self.cplx))
        return [1e-5 * a, 1e5 * a,
                q @ np.diag(np.logspace(0, -3, self.shape[1])),
                # nearly, but not exactly, orthogonal columns
                q + 1e-5 * a, q + 1e-2 * a]

    def invariant(self, x):
        return x @ H(x)

    def vinvariant(self, x, v):
        return v @ H(x)

    def dist(self, x, y):
        u, _, vh = np.linalg.svd(H(y) @ x)
        return nrm(x - y @ (u @ vh))

    def exp(self, x, v):
        return x + v

    def inj_at(self, x):
        return 0.9 * np.linalg.svd(x, compute_uv=False)[-1]

    def dim(self):
        n, k = self.shape
        return 2 * n * k - k * k if self.cplx else n * k - k * (k - 1) // 2


class ElliptopeS(Slice):
    full_exp = False

    def __init__(self, n, k):
        self.shape = (n, k)

    def pres(self, x):
        return np.linalg.norm(x, axis=1) - 1

    def tcon(self, x, v):
        return np.concatenate(
            [(x * v).sum(1), flat(H(x) @ v - H(v) @ x)]
        )

    def comp(self, x):
        n, k = self.shape
        out = []
        for i in range(n):
            e = np.zeros((n, k))
            e[i] = x[i]
            out.append(e)
        for i in range(k):
            for j in range(i + 1, k):
                o = np.zeros((k, k))
                o[i, j], o[j, i] = 1, -1
                out.append(x @ o)
        return out

    def rand(self, r):
        a = rnd(r, self.shape)
        return a / np.linalg.norm(a, axis=1)[:, None]

    def extreme(self):
        n, k = self.shape
        out = []
        for t in (1e-5, 1e-2):
            # rows close to the axes: the Gram matrix is nearly diagonal
            a = np.stack([np.eye(k)[i % k] for i in range(n)])
            a = a + t * rnd(rng("extreme", n, k, t), (n, k))
            out.append(a / np.linalg.norm(a, axis=1)[:, None])
        return out

    def invariant(self, x):
        return x @ H(x)

    def vinvariant(self, x, v):
        return v @ H(x)

    def geodesic(self, x, v):
        # horizontal geodesics of the total space: great circles in each row
        s = SphereS((self.shape[1],))
        return np.stack([s.exp(a, b) for a, b in zip(x, v)])

    def dim(self):
        n, k = self.shape
        return n * (k - 1) - k * (k - 1) // 2


# ---------------------------------------------------------------------------
# Instances.


class Inst:
    """A pymanopt manifold (array valued) with its stacked slice model."""

    layout = 1
    kind = "array"

    def __init__(self, name, make, sl, k=1, *, second_order=False,
                 transport="projection", isometric=False, orth_proj=True,
                 has=(), lacks=()):
        self.name, self.make, self.sl, self.k = name, make, sl, k
        self.second_order = second_order
        self.transport = transport
        self.isometric = isometric
        self.orth_proj = orth_proj
        self.lacks = set(lacks)
        self.m = None

    def get(self):
        if self.m is None:
            self.m = self.make()
        return self.m

    # -- structure ------------------------------------------------------
    @property
    def shape(self):
        return self.sl.shape if self.k == 1 else (self.k, *self.sl.shape)

    @property
    def cplx(self):
        return self.sl.cplx

    def parts(self, x):
        return [x] if self.k == 1 else [x[i] for i in range(self.k)]

    def join(self, parts):
        return parts[0] if self.k == 1 else np.stack(parts)

    # -- reference model --------------------------------------------------
    def pres(self, x):
        return np.concatenate([flat(self.sl.pres(p)) for p in self.parts(x)])

    def shape_ok(self, x):
        return (
            isinstance(x, np.ndarray)
            and x.shape == self.shape
            and (self.cplx or not np.iscomplexobj(x))
        )

    def vshape_ok(self, v):
        return self.shape_ok(v)

    def on_manifold(self, x, tol=1e-8):
        return self.shape_ok(x) and finite(x) and np.abs(
            self.pres(x)).max() <= tol * max(1, nrm(x))

    def tres(self, x, v):
        r = np.concatenate([
            flat(self.sl.tcon(p, q))
            for p, q in zip(self.parts(x), self.parts(v))
        ])
        return float(np.abs(r).max()) if len(r) else 0.0

    def is_tangent(self, x, v, tol=1e-8):
        if not self.vshape_ok(v) or not finite(v):
            return False
        scale = max(nrm(v), 1e-12) * max(1.0, nrm(x))
        if not self.sl.euclidean_metric and hasattr(self.sl, "unit"):
            scale *= max(np.linalg.cond(p) for p in self.parts(x))
        return self.tres(x, v) <= tol * scale + 1e-13

    def inner(self, x, u, v):
        return sum(
            self.sl.inner(a, b, c)
            for a, b, c in zip(self.parts(x), self.parts(u), self.parts(v))
        )

    def norm(self, x, v):
        return float(np.sqrt(max(self.inner(x, v, v), 0)))

    def embed(self, x, v):
        return self.join([
            self.sl.embed(a, b) for a, b in zip(self.parts(x), self.parts(v))
        ])

    def invariant(self, x):
        return self.join([self.sl.invariant(p) for p in self.parts(x)])

    def vinvariant(self, x, v):
        return self.join([
            self.sl.vinvariant(a, b)
            for a, b in zip(self.parts(x), self.parts(v))
        ])

    def same(self, x, y, tol=1e-8):
        if not (self.shape_ok(x) and self.shape_ok(y)):
            return False
        a, b = self.invariant(x), self.invariant(y)
        return gap(a, b) <= tol * max(1, nrm(a), nrm(b))

    def same_vec(self, x, u, v, tol=1e-8, scale=None):
        if scale is None:
            scale = max(1e-9, nrm(u), nrm(v))
        return gap(u, v) <= tol * scale

    def dist(self, x, y):
        return float(np.sqrt(sum(
            self.sl.dist(a, b) ** 2
            for a, b in zip(self.parts(x), self.parts(y))
        )))

    def exp(self, x, v):
        return self.join([
            self.sl.exp(a, b) for a, b in zip(self.parts(x), self.parts(v))
        ])

    def geodesic(self, x, v):
        return self.join([
            self.sl.geodesic(a, b)
            for a, b in zip(self.parts(x), self.parts(v))
        ])

    def inj(self, x):
        """A radius (per slice norm) within which log inverts exp."""
        if hasattr(self.sl, "inj_at"):
            return min(self.sl.inj_at(p) for p in self.parts(x))
        return self.sl.inj

    def slice_norms(self, x, v):
        """Largest geodesic angle contained in v, for injectivity."""
        out = []
        for a, b in zip(self.parts(x), self.parts(v)):
            if isinstance(self.sl, (ObliqueS,)):
                out.append(np.linalg.norm(b, axis=0).max())
            elif isinstance(self.sl, CircleS):
                out.append(np.abs(b).max())
            elif isinstance(self.sl, (GrassmannS, GroupS)):
                out.append(np.linalg.norm(b, 2))
            else:
                out.append(np.sqrt(max(self.sl.inner(a, b, b), 0)))
        return max(out)

    def dim(self):
        return self.k * self.sl.dim()

    # -- alphabets ----------------------------------------------------------
    def points(self, generic=2, special=True):
        sp = self.sl.special() if special else []
        ge = [self.sl.rand(rng(self.name, "pt", i))
              for i in range(generic + self.k)]
        out = []
        if self.k == 1:
            out += [(f"special{i}", s) for i, s in enumerate(sp)]
            out += [(f"generic{i}", ge[i]) for i in range(generic)]
        else:
            pool = ge + sp
            if sp:
                out.append(("special", self.join(
                    [sp[i % len(sp)] for i in range(self.k)])))
                out.append(("mixed", self.join(
                    [pool[-1 - i] if i % 2 else ge[i]
                     for i in range(self.k)])))
            for j in range(generic):
                out.append((f"generic{j}", self.join(
                    [ge[(i + j) % len(ge)] for i in range(self.k)])))
        return [(n, np.array(p)) for n, p in out]

    def extremes(self):
        """Badly scaled points; for stacks, next to moderate slices."""
        ex = self.sl.extreme()
        if self.k == 1:
            return [(f"extreme{i}", np.array(e)) for i, e in enumerate(ex)]
        ge = [self.sl.rand(rng(self.name, "pt", i)) for i in range(self.k)]
        return [(f"extreme{i}", self.join(
            [e if j == i % self.k else g for j, g in enumerate(ge)]))
            for i, e in enumerate(ex)]

    def basis(self, x):
        """Euclidean-orthonormal basis of the tangent space (null space of
        the linearised constraints), independent of `projection`."""
        shape = self.shape
        n = int(np.prod(shape))
        units = []
        for i in range(n):
            e = np.zeros(n)
            e[i] = 1
            units.append(e.reshape(shape))
        if self.cplx:
            units = [u.astype(complex) for u in units] + [
                1j * u for u in units]
        rows = np.stack([
            np.concatenate([
                flat(self.sl.tcon(p, q))
                for p, q in zip(self.parts(x), self.parts(u))
            ]) for u in units
        ], axis=1)
        _, s, vt = np.linalg.svd(rows)
        rank = int(np.sum(s > 1e-9 * max(1, s[0]))) if len(s) else 0
        out = []
        for c in vt[rank:]:
            v = sum(ci * u for ci, u in zip(c, units))
            out.append(v)
        return out

    def unbasis(self, coefficients, basis):
        return sum(c * b for c, b in zip(coefficients, basis))

    def tangents(self, x, generic=2, maxbasis=3):
        """(label, v) with unit Riemannian norm."""
        b = self.basis(x)
        if not b:
            return []
        out = []
        pick = range(len(b)) if len(b) <= maxbasis else \
            np.unique(np.linspace(0, len(b) - 1, maxbasis).astype(int))
        for i in pick:
            out.append((f"basis{i}", b[i]))
        for i in range(generic):
            c = rng(self.name, "tv", i).normal(size=len(b))
            out.append((f"dir{i}", self.unbasis(c, b)))
        if self.k > 1:
            # one slice at rest while the others move
            v = np.array(out[-1][1])
            v[0] = 0
            if nrm(v) > 1e-6 * nrm(out[-1][1]):
                out.append(("slice0-rest", v))
        return [(n, v / self.norm(x, v)) for n, v in out]

    def ambient(self, x, count=2):
        return [
            (f"amb{i}", rnd(rng(self.name, "amb", i), self.shape, self.cplx))
            for i in range(count)
        ]

    def dinv(self, x, v):
        """Derivative of `invariant` along the tangent vector v."""
        if isinstance(self.sl, (GrassmannS, PSDS, ElliptopeS)):
            w = v @ H(x)
            return w + H(w)
        return self.embed(x, v)

    def comp(self, x):
        """Ambient vectors the projection must annihilate."""
        if self.k == 1:
            return self.sl.comp(x)
        out = []
        for i, p in enumerate(self.parts(x)):
            for c in self.sl.comp(p):
                z = np.zeros(self.shape, dtype=complex if self.cplx else float)
                z[i] = c
                out.append(z)
        return out

    def representatives(self, x):
        """Other representatives of the same point (quotients only), with a
        map carrying a horizontal vector along."""
        if not isinstance(self.sl, (GrassmannS, PSDS, ElliptopeS)):
            return []
        p = self.sl.shape[1]
        out = []
        for i in range(2):
            qs = [orth(rnd(rng(self.name, "q", i, j), (p, p), self.cplx))
                  for j in range(self.k)]
            if i == 1:
                qs = [np.eye(p)[::-1] * (-1.0) for _ in qs]
            q = qs[0] if self.k == 1 else np.stack(qs)
            out.append((f"rep{i}", x @ q, lambda v, q=q: v @ q))
        return out


class FixedRankInst(Inst):
    """Points (u, s, vt); tangent vectors (Up, M, Vp); ambient m x n."""

    layout = 3
    kind = "fixedrank"

    def __init__(self, m, n, k):
        self.mm, self.nn, self.r = m, n, k
        self.k = 1
        self.name = f"FixedRankEmbedded({m},{n},{k})"
        self.make = lambda: pm.FixedRankEmbedded(m, n, k)
        self.second_order = True
        self.transport = "projection"
        self.isometric = False
        self.orth_proj = True
        self.lacks = {"exp", "log", "dist", "pair_mean", "hessian"}
        self.m = None
        self.sl = Slice()

    cplx = False

    @property
    def shape(self):
        return (self.mm, self.r), (self.r,), (self.r, self.nn)

    def shape_ok(self, x):
        return len(x) == 3 and all(
            isinstance(a, np.ndarray) and a.shape == s
            and not np.iscomplexobj(a)
            for a, s in zip(x, self.shape))

    def vshape_ok(self, v):
        want = (self.mm, self.r), (self.r, self.r), (self.nn, self.r)
        return len(v) == 3 and all(
            isinstance(a, np.ndarray) and a.shape == s
            and not np.iscomplexobj(a) for a, s in zip(v, want))

    def pres(self, x):
        u, s, vt = x
        return np.concatenate([
            flat(u.T @ u - np.eye(self.r)), flat(vt @ vt.T - np.eye(self.r)),
            np.where(s > 0, 0, 1)])

    def tres(self, x, v):
        u, s, vt = x
        up, m, vp = v
        return float(max(np.abs(u.T @ up).max(), np.abs(vt @ vp).max()))

    def is_tangent(self, x, v, tol=1e-8):
        return self.vshape_ok(v) and finite(v) and self.tres(x, v) <= \
            tol * max(nrm(v), 1e-12) * max(1, nrm(x[0])) + 1e-13

    def inner(self, x, u, v):
        return float(np.sum(self.embed(x, u) * self.embed(x, v)))

    def embed(self, x, v):
        u, s, vt = x
        up, m, vp = v
        return u @ m @ vt + up @ vt + u @ vp.T

    def invariant(self, x):
        u, s, vt = x
        return (u * s) @ vt

    def vinvariant(self, x, v):
        return self.embed(x, v)

    def same(self, x, y, tol=1e-8):
        if not (self.shape_ok(x) and self.shape_ok(y)):
            return False
        a, b = self.invariant(x), self.invariant(y)
        return gap(a, b) <= tol * max(1, nrm(a), nrm(b))

    def dim(self):
        return (self.mm + self.nn - self.r) * self.r

    def _pt(self, r):
        u = orth(rnd(r, (self.mm, self.r)))
        v = orth(rnd(r, (self.nn, self.r)))
        s = np.sort(r.uniform(0.5, 3, size=self.r) + np.arange(self.r))[::-1]
        return u, s.copy(), v.T.copy()

    def points(self, generic=2, special=True):
        out = [(f"generic{i}", self._pt(rng(self.name, i)))
               for i in range(generic)]
        if special:
            out.insert(0, ("special0", (
                np.eye(self.mm, self.r),
                np.arange(self.r, 0, -1.0), np.eye(self.r, self.nn))))
        return out

    def extremes(self):
        u, _, vt = self._pt(rng(self.name, "extreme"))
        # clustered, spread out, tiny and large singular values
        spectra = [1 + 1e-4 * np.arange(self.r), np.logspace(
            -3, 3, self.r) if self.r > 1 else np.array([1e-3]),
            1e-5 * (1 + np.arange(self.r)), 1e5 * (1.0 + np.arange(self.r))]
        return [(f"extreme{i}", (u, s[::-1].copy(), vt))
                for i, s in enumerate(spectra)]

    def wrap(self, x, parts):
        z = self.get().zero_vector(x)
        return type(z)(*parts)

    def basis(self, x):
        u, s, vt = x
        un = sla.null_space(u.T)
        vn = sla.null_space(vt)
        out = []
        zero = lambda: [np.zeros((self.mm, self.r)),  # noqa: E731
                        np.zeros((self.r, self.r)),
                        np.zeros((self.nn, self.r))]
        for i in range(self.r):
            for j in range(self.r):
                z = zero()
                z[1][i, j] = 1
                out.append(self.wrap(x, z))
        for i in range(un.shape[1]):
            for j in range(self.r):
                z = zero()
                z[0][:, j] = un[:, i]
                out.append(self.wrap(x, z))
        for i in range(vn.shape[1]):
            for j in range(self.r):
                z = zero()
                z[2][:, j] = vn[:, i]
                out.append(self.wrap(x, z))
        return out

    def unbasis(self, coefficients, basis):
        total = coefficients[0] * basis[0]
        for c, b in zip(coefficients[1:], basis[1:]):
            total = total + c * b
        return total

    def tangents(self, x, generic=2, maxbasis=4):
        b = self.basis(x)
        pick = np.unique(np.linspace(0, len(b) - 1, maxbasis).astype(int))
        out = [(f"basis{i}", b[i]) for i in pick]
        for i in range(generic):
            c = rng(self.name, "tv", i).normal(size=len(b))
            out.append((f"dir{i}", self.unbasis(c, b)))
        # only part of the factors move
        v = out[-1][1]
        out.append(("M-only", self.wrap(x, [0 * v[0], v[1], 0 * v[2]])))
        out.append(("UpVp", self.wrap(x, [v[0], 0 * v[1], v[2]])))
        return [(n, v / self.norm(x, v)) for n, v in out
                if self.norm(x, v) > 1e-9]

    def ambient(self, x, count=2):
        return [(f"amb{i}", rnd(rng(self.name, "amb", i), (self.mm, self.nn)))
                for i in range(count)]

    def comp(self, x):
        u, s, vt = x
        un = sla.null_space(u.T)
        vn = sla.null_space(vt)
        return [np.outer(un[:, i], vn[:, j]) for i in range(un.shape[1])
                for j in range(vn.shape[1])]

    def inj(self, x):
        return 0.3 * x[1].min()

    def slice_norms(self, x, v):
        return self.norm(x, v)

    def dinv(self, x, v):
        return self.embed(x, v)

    def representatives(self, x):
        u, s, vt = x
        d = np.where(np.arange(self.r) % 2 == 0, -1.0, 1.0)
        out = [("signs", (u * d, s, d[:, None] * vt),
                lambda v: self.wrap(x, [v[0] * d, d[:, None] * v[1] * d,
                                        v[2] * d]))]
        if self.r > 1:
            p = np.arange(self.r)[::-1]
            out.append(("perm", (u[:, p], s[p], vt[p]),
                        lambda v: self.wrap(x, [v[0][:, p], v[1][p][:, p],
                                                v[2][:, p]])))
        return out


class ProductInst(Inst):
    kind = "product"

    def __init__(self, factors, lacks=()):
        self.factors = factors
        self.name = "Product[" + "x".join(f.name for f in factors) + "]"
        self.make = lambda: pm.Product([f.make() for f in factors])
        self.k = 1
        self.m = None
        self.second_order = all(f.second_order for f in factors)
        self.transport = "product"
        self.isometric = all(f.isometric for f in factors)
        self.orth_proj = True
        self.lacks = set().union(*[f.lacks for f in factors]) | set(lacks)
        self.layout = [f.layout for f in factors]
        self.sl = Slice()
        self.sl.full_exp = all(f.sl.full_exp for f in factors)
        self.sl.identity_embed = all(f.sl.identity_embed for f in factors)
        self.sl.euclidean_metric = all(
            f.sl.euclidean_metric for f in factors)

    cplx = False

    def _z(self, x):
        return zip(self.factors, x)

    def shape_ok(self, x):
        return isinstance(x, (list, tuple)) and len(x) == len(
            self.factors) and all(f.shape_ok(p) for f, p in self._z(x))

    def vshape_ok(self, x):
        return isinstance(x, (list, tuple)) and len(x) == len(
            self.factors) and all(f.vshape_ok(p) for f, p in self._z(x))

    def pres(self, x):
        return np.concatenate([flat(f.pres(p)) for f, p in self._z(x)])

    def on_manifold(self, x, tol=1e-8):
        return self.shape_ok(x) and all(
            f.on_manifold(p, tol) for f, p in self._z(x))

    def tres(self, x, v):
        return max(f.tres(p, q) for f, p, q in zip(self.factors, x, v))

    def is_tangent(self, x, v, tol=1e-8):
        return self.vshape_ok(v) and all(
            f.is_tangent(p, q, tol)
            for f, p, q in zip(self.factors, x, v))

    def inner(self, x, u, v):
        return sum(f.inner(a, b, c)
                   for f, a, b, c in zip(self.factors, x, u, v))

    def embed(self, x, v):
        return [f.embed(a, b) for f, a, b in zip(self.factors, x, v)]

    def invariant(self, x):
        return [f.invariant(p) for f, p in self._z(x)]

    def vinvariant(self, x, v):
        return [f.vinvariant(a, b) for f, a, b in zip(self.factors, x, v)]

    def same(self, x, y, tol=1e-8):
        return self.shape_ok(x) and self.shape_ok(y) and all(
            f.same(a, b, tol) for f, a, b in zip(self.factors, x, y))

    def dist(self, x, y):
        return float(np.sqrt(sum(f.dist(a, b) ** 2 for f, a, b in zip(
            self.factors, x, y))))

    def exp(self, x, v):
        return [f.exp(a, b) for f, a, b in zip(self.factors, x, v)]

    def geodesic(self, x, v):
        return [f.geodesic(a, b) for f, a, b in zip(self.factors, x, v)]

    def inj(self, x):
        return min(f.inj(p) for f, p in self._z(x))

    def slice_norms(self, x, v):
        return max(f.slice_norms(a, b)
                   for f, a, b in zip(self.factors, x, v))

    def dim(self):
        return sum(f.dim() for f in self.factors)

    def points(self, generic=2, special=True):
        pools = [f.points(generic, special) for f in self.factors]
        n = max(len(p) for p in pools)
        return [
            (f"p{i}", [p[(i + j) % len(p)][1] for j, p in enumerate(pools)])
            for i in range(n)
        ]

    def extremes(self):
        out = []
        for i, f in enumerate(self.factors):
            for label, e in f.extremes():
                x = [g.points(1)[-1][1] for g in self.factors]
                x[i] = e
                out.append((f"{i}:{label}", x))
        return out

    def wrap(self, x, parts):
        return type(self.get().zero_vector(x))(parts)

    def zero(self, x):
        return [0 * f.tangents(p)[0][1] for f, p in self._z(x)]

    def basis(self, x):
        out = []
        for i, (f, p) in enumerate(self._z(x)):
            for b in f.basis(p):
                z = self.zero(x)
                z[i] = b
                out.append(self.wrap(x, z))
        return out

    def unbasis(self, coefficients, basis):
        total = coefficients[0] * basis[0]
        for c, b in zip(coefficients[1:], basis[1:]):
            total = total + c * b
        return total

    def tangents(self, x, generic=2, maxbasis=3):
        pools = [f.tangents(p, generic, maxbasis) for f, p in self._z(x)]
        n = max(len(p) for p in pools)
        out = [
            (f"v{i}", self.wrap(
                x, [p[(i + j) % len(p)][1] for j, p in enumerate(pools)]))
            for i in range(n)
        ]
        for i in range(len(self.factors)):
            z = self.zero(x)
            z[i] = pools[i][-1][1]
            out.append((f"only{i}", self.wrap(x, z)))
        return [(n, v / self.norm(x, v)) for n, v in out]

    def ambient(self, x, count=2):
        pools = [f.ambient(p, count) for f, p in self._z(x)]
        return [(f"amb{i}", [p[i][1] for p in pools]) for i in range(count)]

    def dinv(self, x, v):
        return [f.dinv(a, b) for f, a, b in zip(self.factors, x, v)]

    def comp(self, x):
        out = []
        for i, (f, p) in enumerate(self._z(x)):
            for c in f.comp(p)[:3]:
                z = [0 * a for a in self.ambient(x, 1)[0][1]]
                z[i] = c
                out.append(z)
        return out

    def representatives(self, x):
        return []


def _euclid(*shape):
    n = ",".join(map(str, shape))
    return Inst(f"Euclidean({n})", lambda: pm.Euclidean(*shape),
                EuclideanS(shape), second_order=True, transport="identity",
                isometric=True)


def _ceuclid(*shape):
    n = ",".join(map(str, shape))
    return Inst(f"ComplexEuclidean({n})", lambda: pm.ComplexEuclidean(*shape),
                EuclideanS(shape, True), second_order=True,
                transport="identity", isometric=True)


def _symm(n, k=1):
    return Inst(f"Symmetric({n},{k})", lambda: pm.Symmetric(n, k), SymS(n), k,
                second_order=True, transport="identity", isometric=True)


def _skew(n, k=1):
    return Inst(f"SkewSymmetric({n},{k})", lambda: pm.SkewSymmetric(n, k),
                SkewS(n), k, second_order=True, transport="identity",
                isometric=True)


def _sphere(*shape):
    n = ",".join(map(str, shape))
    return Inst(f"Sphere({n})", lambda: pm.Sphere(*shape), SphereS(shape),
                second_order=True)


def _sub(n, r, complement=False):
    a = rnd(rng("sub", n, r), (n, r))
    if r > 1:
        a[:, 1] += 2 * a[:, 0]
    q = orth(a)
    p = np.eye(n) - q @ q.T if complement else q @ q.T
    cls = "SphereSubspaceComplementIntersection" if complement else \
        "SphereSubspaceIntersection"
    return Inst(f"{cls}({n},{r})", lambda: getattr(pm, cls)(a.copy()),
                SphereS((n,), p), second_order=True)


def _oblique(m, n):
    return Inst(f"Oblique({m},{n})", lambda: pm.Oblique(m, n), ObliqueS(m, n),
                second_order=True)


def _circle(n):
    return Inst(f"ComplexCircle({n})", lambda: pm.ComplexCircle(n),
                CircleS(n), second_order=True)


def _stiefel(n, p, k=1, retraction="qr"):
    return Inst(f"Stiefel({n},{p},k={k},{retraction})",
                lambda: pm.Stiefel(n, p, k=k, retraction=retraction),
                StiefelS(n, p), k, second_order=retraction == "polar",
                lacks=("log", "dist", "pair_mean"))


def _grass(n, p, k=1, cplx=False):
    c = pm.ComplexGrassmann if cplx else pm.Grassmann
    return Inst(f"{c.__name__}({n},{p},k={k})", lambda: c(n, p, k=k),
                GrassmannS(n, p, cplx), k, second_order=True,
                lacks=("pair_mean",))


def _group(n, k=1, retraction="qr", cplx=False):
    c = pm.UnitaryGroup if cplx else pm.SpecialOrthogonalGroup
    return Inst(f"{c.__name__}({n},k={k},{retraction})",
                lambda: c(n, k=k, retraction=retraction), GroupS(n, cplx), k,
                second_order=retraction == "polar", transport="identity",
                isometric=True)


def _positive(m, n, k=1, parallel=False):
    return Inst(f"Positive({m},{n},k={k},parallel={parallel})",
                lambda: pm.Positive(m, n, k=k, use_parallel_transport=parallel),
                PositiveS(m, n), k, second_order=True,
                transport="parallel" if parallel else "identity",
                isometric=parallel, lacks=("pair_mean",))


def _pd(cls, n, k=1):
    c = getattr(pm, cls)
    special = cls.startswith("Special")
    return Inst(f"{cls}({n},k={k})", lambda: c(n, k=k),
                PDS(n, "Hermitian" in cls, special), k, second_order=True,
                transport="projection" if special else "identity",
                orth_proj=special,
                lacks=("pair_mean", "hessian") if special
                else ("pair_mean",))


def _poincare(n, k=1):
    return Inst(f"PoincareBall({n},k={k})", lambda: pm.PoincareBall(n, k=k),
                PoincareS(n), k, second_order=True, transport=None,
                lacks=("transport",))


def _psd(n, k, cplx=False):
    c = pm.PSDFixedRankComplex if cplx else pm.PSDFixedRank
    return Inst(f"{c.__name__}({n},{k})", lambda: c(n, k), PSDS(n, k, cplx),
                second_order=True, lacks=("pair_mean",))


def _ell(n, k):
    return Inst(f"Elliptope({n},{k})", lambda: pm.Elliptope(n, k),
                ElliptopeS(n, k), second_order=False,
                lacks=("log", "dist", "pair_mean"))


def instances(tier="quick"):
    out = [
        _euclid(3), _euclid(2, 3), _euclid(2, 2, 2), _ceuclid(2),
        _ceuclid(2, 2), _symm(3), _symm(2, 3), _skew(3), _skew(3, 2),
        _sphere(2), _sphere(4), _sphere(2, 3), _sphere(2, 2, 2),
        _sub(4, 2), _sub(5, 3), _sub(4, 2, True), _sub(5, 1, True),
        _oblique(3, 2), _oblique(2, 4), _circle(1), _circle(3),
        _stiefel(3, 1), _stiefel(4, 2), _stiefel(3, 3), _stiefel(4, 2, 2),
        _stiefel(4, 2, 1, "polar"), _stiefel(3, 2, 3, "polar"),
        _grass(3, 1), _grass(4, 2), _grass(5, 3), _grass(4, 2, 2),
        _grass(3, 1, 1, True), _grass(4, 2, 1, True), _grass(3, 2, 2, True),
        _group(2), _group(3), _group(4), _group(3, 2),
        _group(3, 1, "polar"), _group(2, 3, "polar"),
        _group(1, 1, "qr", True), _group(2, 1, "qr", True),
        _group(3, 1, "qr", True), _group(2, 2, "qr", True),
        _group(3, 1, "polar", True), _group(2, 2, "polar", True),
        _positive(2, 3), _positive(2, 2, 2), _positive(2, 2, 1, True),
        _positive(1, 2, 2, True),
        _pd("SymmetricPositiveDefinite", 2),
        _pd("SymmetricPositiveDefinite", 3),
        _pd("SymmetricPositiveDefinite", 2, 3),
        _pd("HermitianPositiveDefinite", 2),
        _pd("HermitianPositiveDefinite", 3),
        _pd("HermitianPositiveDefinite", 2, 2),
        _pd("SpecialHermitianPositiveDefinite", 2),
        _pd("SpecialHermitianPositiveDefinite", 3),
        _pd("SpecialHermitianPositiveDefinite", 2, 2),
        _poincare(2), _poincare(3), _poincare(2, 3),
        _psd(4, 2), _psd(3, 1), _psd(3, 3), _psd(4, 2, True), _psd(3, 1, True),
        _ell(4, 2), _ell(5, 3), _ell(3, 2),
        FixedRankInst(4, 3, 2), FixedRankInst(3, 5, 1),
        FixedRankInst(5, 4, 3),
        ProductInst([_sphere(3), _euclid(2)]),
        ProductInst([_euclid(2, 2), _grass(4, 2), _positive(1, 2)]),
        ProductInst([_group(3), _sphere(2, 2), _circle(2)]),
        ProductInst([_pd("SymmetricPositiveDefinite", 2),
                     _group(2, 1, "qr", True)]),
        ProductInst([_oblique(3, 2)]),
        ProductInst([_euclid(2), FixedRankInst(4, 3, 2)]),
    ]
    if tier == "thorough":
        out += [
            _euclid(1), _euclid(7), _ceuclid(1), _ceuclid(2, 2, 2),
            _symm(1), _symm(5), _symm(3, 2), _skew(2), _skew(4), _skew(2, 3),
            _sphere(9), _sphere(3, 3), _sub(7, 4), _sub(7, 4, True),
            _oblique(4, 3), _oblique(5, 1), _circle(6),
            _stiefel(6, 3), _stiefel(5, 4, 2), _stiefel(2, 2, 2),
            _stiefel(6, 3, 1, "polar"), _stiefel(3, 3, 2, "polar"),
            _grass(6, 2), _grass(6, 5), _grass(5, 2, 3), _grass(2, 1, 4),
            _grass(5, 2, 1, True), _grass(5, 3, 2, True),
            _group(5), _group(4, 2), _group(2, 4), _group(5, 1, "polar"),
            _group(4, 1, "qr", True), _group(4, 2, "polar", True),
            _positive(3, 3), _positive(3, 1, 3), _positive(3, 2, 2, True),
            _pd("SymmetricPositiveDefinite", 1),
            _pd("SymmetricPositiveDefinite", 5),
            _pd("SymmetricPositiveDefinite", 3, 2),
            _pd("HermitianPositiveDefinite", 1),
            _pd("HermitianPositiveDefinite", 4),
            _pd("HermitianPositiveDefinite", 3, 3),
            _pd("SpecialHermitianPositiveDefinite", 4),
            _pd("SpecialHermitianPositiveDefinite", 3, 3),
            _poincare(1), _poincare(5), _poincare(3, 2), _poincare(1, 2),
            _psd(6, 3), _psd(5, 4), _psd(5, 3, True), _psd(2, 2, True),
            _ell(6, 4), _ell(7, 2), FixedRankInst(6, 6, 3),
            FixedRankInst(2, 2, 2), FixedRankInst(3, 3, 3),
            FixedRankInst(7, 3, 1),
            ProductInst([_grass(3, 1, 1, True), _psd(3, 1), _poincare(2)]),
            ProductInst([_stiefel(4, 2, 2), _skew(3), _symm(2, 2),
                         _ceuclid(2)]),
            ProductInst([FixedRankInst(4, 3, 2), _sphere(3),
                         FixedRankInst(3, 5, 1)]),
        ]
    return out


_CACHE = {}


def by_name(name):
    if not _CACHE:
        for inst in instances("thorough"):
            _CACHE[inst.name] = inst
    return _CACHE[name]


def names(tier, lacks=()):
    lacks = {lacks} if isinstance(lacks, str) else set(lacks)
    return [i.name for i in instances(tier) if not (i.lacks & lacks)]


def curved(inst, x):
    """Points where the manifold bends within a step of the difference
    quotients (fixed-rank matrices with a tiny singular value)."""
    if inst.kind == "product":
        return any(curved(f, p) for f, p in zip(inst.factors, x))
    return inst.kind == "fixedrank" and x[1].min() < 0.1


def reachable(inst, rec, depth, *, scales=(0.3,), points=None, limit=None,
              ops=("retraction", "exp"), extremes=False):
    """Breadth-first closure of the point alphabet under the moves of the
    real implementation.  Yields (history, point); states are deduplicated
    by their representation-independent invariant rounded to 1e-9."""
    m = inst.get()
    seen = set()
    frontier = []
    if extremes:
        for label, x in inst.extremes():
            rec.state((inst.name, label))
            yield (label,), x
    for label, x in points if points is not None else inst.points():
        frontier.append(((label,), x))
    level = 0
    while frontier:
        nxt = []
        for history, x in frontier:
            key = np.round(flat(inst.invariant(x)), 9).tobytes()
            if key in seen:
                continue
            seen.add(key)
            rec.state((inst.name, key))
            yield history, x
            if level >= depth:
                continue
            tv = inst.tangents(x, generic=1, maxbasis=2)
            for (vl, v), s, op in itertools.product(tv, scales, ops):
                if op in inst.lacks:
                    continue
                y = getattr(m, op)(x, s * v)
                rec.step()
                nxt.append((history + (f"{op}({s}*{vl})",), y))
        frontier = nxt
        level += 1
        if level > depth:
            break
