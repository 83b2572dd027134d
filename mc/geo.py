"""Shared shape of the geometry checks: one case per manifold instance."""
from . import zoo


def cases(tier, lacks=(), want=None):
    return [
        {"id": name, "instance": name, "tier": tier}
        for name in zoo.names(tier, lacks)
        if want is None or want(zoo.by_name(name))
    ]


def lin(a, u, b, v):
    """a*u + b*v for plain lists of arrays as well as tangent types."""
    if type(u) in (list, tuple):
        return type(u)(lin(a, p, b, q) for p, q in zip(u, v))
    return a * u + b * v


def overwrite(buffer, value):
    """Put the numbers of `value` into the arrays of `buffer`."""
    import numpy as np

    if isinstance(buffer, np.ndarray):
        buffer[...] = value
    elif isinstance(buffer, (list, tuple)):
        for b, v in zip(buffer, value):
            overwrite(b, v)


def copy(value):
    import numpy as np

    if isinstance(value, np.ndarray):
        return np.array(value)
    if isinstance(value, tuple) and hasattr(value, "_fields"):
        return type(value)(*[copy(v) for v in value])
    if isinstance(value, (list, tuple)):
        return type(value)([copy(v) for v in value])
    return value


def scalar(value):
    """A real finite number, as opposed to a complex one or an array."""
    import numpy as np

    return np.ndim(value) == 0 and not np.iscomplexobj(value) and bool(
        np.isfinite(value))


ASSUME = [
    "the analytic reference models of mc/zoo.py (constraints, metrics, "
    "closed-form geodesics and distances) are correct",
    "numpy/scipy linear algebra is correct to the stated tolerances",
    "the alphabet (instances, special and generic points, tangent directions, "
    "magnitudes) listed in mc/zoo.py bounds the exploration",
]




def operations(inst, x, y, v, w, e, eh):
    """(name, arguments, kind of result) of every deterministic operation.

    x, y points (y within reach of log), v, w tangent at x, e and eh ambient
    gradient and Hessian values at x.  Kinds: s scalar, p point, tx tangent at
    x, ty tangent at y, a ambient vector.
    """
    ops = [
        ("inner_product", (x, v, w), "s"),
        ("inner_product", (x, v, v), "s"),
        ("norm", (x, v), "s"),
        ("projection", (x, inst.ambient(x, 1)[0][1]), "tx"),
        ("to_tangent_space", (x, v), "tx"),
        ("embedding", (x, v), "a"),
        ("retraction", (x, v), "p"),
        ("zero_vector", (x,), "tx"),
        ("euclidean_to_riemannian_gradient", (x, e), "tx"),
    ]
    lacks = inst.lacks
    if "transport" not in lacks:
        ops.append(("transport", (x, y, v), "ty"))
    if "hessian" not in lacks and eh is not None:
        ops.append(("euclidean_to_riemannian_hessian", (x, e, eh, v), "tx"))
    if "dist" not in lacks:
        ops.append(("dist", (x, y), "s"))
    if "exp" not in lacks:
        ops.append(("exp", (x, v), "p"))
    if "log" not in lacks:
        ops.append(("log", (x, y), "tx"))
    if "pair_mean" not in lacks:
        ops.append(("pair_mean", (x, y), "p"))
    return ops


def settings(inst, count=2, steps=(0.7,)):
    """(label, x, y, v, w, e, eh) tuples for `operations`."""
    from . import calculus

    cost = calculus.cost_for(inst)
    pts = inst.points(generic=count)
    for label, x in pts:
        tv = inst.tangents(x, generic=2, maxbasis=2)
        if not tv:
            continue
        e = cost.grad(x)
        for i, s in enumerate(steps):
            v, w = s * tv[-1 - i][1], tv[0][1]
            u = tv[len(tv) // 2][1]
            y = inst.exp(x, 0.4 * u) if _has_exp(inst) else \
                inst.get().retraction(x, 0.4 * u)
            eh = None
            if "hessian" not in inst.lacks:
                eh = cost.hess(x, inst.embed(x, v))
            yield f"{label}/{s}", x, y, v, w, e, eh


def _has_exp(inst):
    if inst.kind == "product":
        return all(_has_exp(f) for f in inst.factors)
    return inst.kind == "array" and inst.sl.full_exp
