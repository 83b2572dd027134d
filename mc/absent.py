"""Child process of C36: pymanopt with some backends missing.

argv: JSON {"missing": [...], "broken": bool, "before": [...], "after": [...]}
prints a JSON list of [key, ok, message] on the last line.
"""
import importlib.abc
import json
import sys

from . import env

PACKAGE = {"autograd": "autograd", "jax": "jax", "pytorch": "torch",
           "tensorflow": "tensorflow"}


class Blocker(importlib.abc.MetaPathFinder):
    """Missing: not found.  Broken: found, but its import fails."""

    def __init__(self, names, broken):
        self.names, self.broken = names, broken

    def find_spec(self, fullname, path=None, target=None):
        if fullname.split(".")[0] in self.names:
            if self.broken:
                raise ImportError(f"cannot load a library of {fullname}")
            raise ModuleNotFoundError(f"No module named {fullname!r}",
                                      name=fullname)


def main():
    spec = json.loads(sys.argv[1])
    env.setup(fast=False)
    missing = set(spec["missing"])
    sys.meta_path.insert(0, Blocker({PACKAGE[m] for m in missing},
                                    spec["broken"]))
    checks = []

    def check(cond, key, msg=""):
        checks.append([key, bool(cond), str(msg)[:300]])

    for name in spec["before"]:
        __import__(PACKAGE[name])
    try:
        import pymanopt
    except BaseException as error:  # noqa: B902
        check(False, "import", f"import pymanopt raises {error!r}")
        print("\n" + json.dumps(checks))
        return
    check(True, "import")
    import numpy as np

    rng = np.random.default_rng(5)
    sphere = pymanopt.manifolds.Sphere(3)
    pair = pymanopt.manifolds.Product(
        [pymanopt.manifolds.Euclidean(2), pymanopt.manifolds.Sphere(2)])
    a = rng.normal(size=(3, 3))
    a = a + a.T
    x = rng.normal(size=3)
    x /= np.linalg.norm(x)
    p = [rng.normal(size=2), np.array([0.6, 0.8])]
    v = rng.normal(size=3)
    q = [rng.normal(size=2), rng.normal(size=2)]

    def functions(name):
        if name == "pytorch":
            import torch

            m = torch.from_numpy(a)
            return (lambda y: 0.5 * y @ m @ y,
                    lambda y, z: torch.sum(y**3) * torch.sum(z * z))
        if name == "tensorflow":
            import tensorflow as tf

            m = tf.constant(a)
            return (lambda y: 0.5 * tf.reduce_sum(y * tf.linalg.matvec(m, y)),
                    lambda y, z: tf.reduce_sum(y**3) * tf.reduce_sum(z * z))
        return (lambda y: 0.5 * y @ a @ y,
                lambda y, z: (y**3).sum() * (z * z).sum())

    expected = (a @ x, a @ v)
    gpair = [3 * p[0]**2 * (p[1] @ p[1]), 2 * p[1] * (p[0]**3).sum()]
    hpair = [6 * p[0] * q[0] * (p[1] @ p[1])
             + 3 * p[0]**2 * 2 * (p[1] @ q[1]),
             2 * q[1] * (p[0]**3).sum()
             + 2 * p[1] * (3 * p[0]**2 * q[0]).sum()]

    def near(got, want):
        got, want = np.asarray(got), np.asarray(want)
        return got.shape == want.shape and got.dtype == np.float64 and (
            np.max(np.abs(got - want)) < 1e-12 * (1 + np.max(np.abs(want))))

    def derivatives(name, stage):
        one, two = functions(name)
        deco = getattr(pymanopt.function, name)
        problem = pymanopt.Problem(sphere, deco(sphere)(one))
        check(abs(problem.cost(x) - 0.5 * x @ a @ x) < 1e-12,
              f"{name}/{stage}/cost", problem.cost(x))
        check(near(problem.euclidean_gradient(x), expected[0]),
              f"{name}/{stage}/gradient", problem.euclidean_gradient(x))
        check(near(problem.euclidean_hessian(x, v), expected[1]),
              f"{name}/{stage}/hessian", problem.euclidean_hessian(x, v))
        problem = pymanopt.Problem(pair, deco(pair)(two))
        got = problem.euclidean_gradient(p)
        check(all(near(g, w) for g, w in zip(got, gpair)),
              f"{name}/{stage}/gradient-pair", got)
        got = problem.euclidean_hessian(p, q)
        check(all(near(g, w) for g, w in zip(got, hpair)),
              f"{name}/{stage}/hessian-pair", got)

    order = list(PACKAGE)
    for name in order:
        deco = getattr(pymanopt.function, name, None)
        check(deco is not None, f"{name}/decorator", "no such decorator")
        if deco is None:
            continue
        if name in missing:
            try:
                deco(sphere)(lambda y: 0.0)
            except Exception as error:
                check(True, f"{name}/rejected", error)
            else:
                check(False, f"{name}/rejected",
                      "decorating with a missing backend is accepted")
            continue
        try:
            derivatives(name, "first")
        except Exception as error:
            check(False, f"{name}/first", f"raises {error!r}")
    for name in spec["after"]:
        if name not in missing:
            __import__(PACKAGE[name])
    # again, now that all available backends have been used
    for name in reversed(order):
        if name not in missing:
            try:
                derivatives(name, "again")
            except Exception as error:
                check(False, f"{name}/again", f"raises {error!r}")
    # functions of numpy need no backend: every optimizer runs
    deco = pymanopt.function.numpy(sphere)
    cost = deco(lambda y: 0.5 * y @ a @ y)
    problem = pymanopt.Problem(
        sphere, cost, euclidean_gradient=deco(lambda y: a @ y),
        euclidean_hessian=deco(lambda y, d: a @ d))
    best = 0.5 * np.linalg.eigvalsh(a)[0]
    for name in pymanopt.optimizers.__all__:
        kind = getattr(pymanopt.optimizers, name)
        if not isinstance(kind, type) or not hasattr(kind, "run"):
            continue
        np.random.seed(3)
        try:
            result = kind(verbosity=0, max_iterations=60).run(problem)
        except Exception as error:
            check(False, f"optimizer/{name}", f"raises {error!r}")
            continue
        check(result.cost < best + 0.1 * abs(best), f"optimizer/{name}",
              f"{result.cost} instead of {best}")
    bare = pymanopt.Problem(sphere, cost)
    for operator in ("euclidean_gradient", "riemannian_gradient",
                     "euclidean_hessian", "riemannian_hessian"):
        try:
            f = getattr(bare, operator)
            f(x) if "gradient" in operator else f(x, v)
        except Exception as error:
            check(True, f"numpy/{operator}", error)
        else:
            check(False, f"numpy/{operator}",
                  "a derivative of a plain numpy function was made up")
    np.random.seed(3)
    try:
        result = pymanopt.optimizers.ParticleSwarm(
            verbosity=0, max_iterations=5, population_size=5).run(bare)
        check(np.isfinite(result.cost), "numpy/derivative-free", result.cost)
    except Exception as error:
        check(False, "numpy/derivative-free", f"raises {error!r}")
    print("\n" + json.dumps(checks))


if __name__ == "__main__":
    main()
