"""The correctness tools convert derivatives correctly."""
import numpy as np

from .. import geo, zoo

ID = "C37"
LEVEL = "model_checking"
RULE = (
    "state = (embedded manifold given by its projector, point, Euclidean "
    "gradient, Euclidean Hessian-vector product, tangent vector); transitions "
    "= one call of a converter of pymanopt.tools.testing; every value is "
    "compared with the closed-form Riemannian derivative and with the "
    "conversion of the manifold class"
)
ASSUMPTIONS = [
    "the closed-form Riemannian derivatives of mc/checks/c37.py are correct "
    "(they are compared with pymanopt's manifolds in the same run)",
    "real arrays and projectors written in autograd's numpy, orthogonal with "
    "respect to the Euclidean inner product",
]


def worlds(tier):
    import autograd.numpy as anp

    def sym(a):
        return 0.5 * (a + np.swapaxes(a, -1, -2))

    def t(a):
        return np.swapaxes(a, -1, -2)

    def at(a):
        return anp.swapaxes(a, -1, -2)

    def asym(a):
        return 0.5 * (a + at(a))

    flat = {
        "project": lambda x, v: v + 0.0 * anp.sum(x) * v,
        "weingarten": lambda x, g, v: 0 * v}
    sphere = {
        "project": lambda x, v: v - anp.sum(x * v) * x,
        # D_v[P_x](g), then projected
        "weingarten": lambda x, g, v: -np.sum(x * g) * v}
    stiefel = {
        "project": lambda x, v: v - anp.matmul(x, asym(anp.matmul(at(x), v))),
        "weingarten": lambda x, g, v: -v @ sym(t(x) @ g)}
    grassmann = {
        "project": lambda x, v: v - anp.matmul(x, anp.matmul(at(x), v)),
        "weingarten": lambda x, g, v: -v @ (t(x) @ g)}
    oblique = {
        "project": lambda x, v: v - x * anp.sum(x * v, axis=0),
        "weingarten": lambda x, g, v: -v * np.sum(x * g, axis=0)}
    out = [
        (zoo._euclid(1), flat), (zoo._euclid(3), flat),
        (zoo._euclid(2, 2), flat), (zoo._euclid(2, 2, 2), flat),
        (zoo._sphere(2), sphere), (zoo._sphere(3), sphere),
        (zoo._sphere(2, 2), sphere),
        (zoo._stiefel(3, 1), stiefel), (zoo._stiefel(3, 2), stiefel),
        (zoo._stiefel(3, 3), stiefel), (zoo._stiefel(3, 2, 2), stiefel),
        (zoo._grass(3, 1), grassmann), (zoo._grass(4, 2), grassmann),
        (zoo._grass(3, 2, 2), grassmann),
        (zoo._oblique(3, 2), oblique), (zoo._oblique(2, 3), oblique),
    ]
    if tier == "thorough":
        out += [(zoo._sphere(3, 2), sphere), (zoo._sphere(2, 2, 2), sphere),
                (zoo._stiefel(4, 2), stiefel), (zoo._stiefel(3, 2, 3),
                                                stiefel),
                (zoo._stiefel(4, 3), stiefel), (zoo._grass(4, 2, 3),
                                                grassmann),
                (zoo._oblique(4, 3), oblique), (zoo._euclid(3, 3), flat)]
    return out


def cases(tier):
    return [{"id": inst.name, "index": n, "tier": tier}
            for n, (inst, _) in enumerate(worlds(tier))]


def costs(shape):
    """(name, cost in autograd's numpy, gradient, Hessian product)."""
    import autograd.numpy as anp

    r = zoo.rng("c37", *shape)
    w = 0.5 + r.random(size=shape)
    b = r.normal(size=shape)
    n = int(np.prod(shape))
    m = r.normal(size=(n, n))
    m = m + m.T
    return [
        ("linear", lambda x: anp.sum(b * x), lambda x: b + 0 * x,
         lambda x, v: 0 * v),
        ("weighted", lambda x: 0.5 * anp.sum(w * x**2), lambda x: w * x,
         lambda x, v: w * v),
        ("coupled", lambda x: 0.5 * anp.dot(
            anp.reshape(x, (n,)), anp.dot(m, anp.reshape(x, (n,)))),
         lambda x: (m @ x.reshape(n)).reshape(shape),
         lambda x, v: (m @ v.reshape(n)).reshape(shape)),
        ("cubic", lambda x: anp.sum(b * x)**3 / 3.0 + anp.sum(anp.sin(x)),
         lambda x: np.sum(b * x)**2 * b + np.cos(x),
         lambda x, v: 2 * np.sum(b * x) * np.sum(b * v) * b - np.sin(x) * v),
        ("large", lambda x: 1e8 * anp.sum(w * x**2),
         lambda x: 2e8 * w * x, lambda x, v: 2e8 * w * v),
        ("tiny", lambda x: 1e-12 * anp.sum(w * x**2),
         lambda x: 2e-12 * w * x, lambda x, v: 2e-12 * w * v),
    ]


def run_case(case, rec):
    from pymanopt.tools import testing

    inst, form = worlds(case["tier"])[case["index"]]
    name = inst.name
    project, bend = form["project"], form["weingarten"]
    manifold = inst.get()
    to_gradient = testing.euclidean_to_riemannian_gradient(project)
    to_hessian = testing.euclidean_to_riemannian_hessian(project)
    deep = case["tier"] == "thorough"
    points = inst.points(generic=2)
    shape = points[0][1].shape
    derivatives = [(n, g, h, testing.riemannian_gradient(c, project))
                   for n, c, g, h in costs(shape)]
    own = inst.kind != "euclid"

    def near(key, got, want, scale, what, tag):
        got = np.asarray(got)
        rec.step()
        rec.check(
            got.shape == shape and bool(np.all(np.isfinite(got)))
            and np.max(np.abs(got - want)) <= 1e-12 * scale,
            f"{name}/{key}", lambda: f"{what()}: {got} instead of {want}",
            nontrivial=tag)

    for label, x in points:
        x = np.asarray(x, dtype=float)
        rec.state((name, label))
        rec.trace()
        rec.sample({"manifold": name, "point": label})
        tangents = [(n, np.asarray(v, dtype=float))
                    for n, v in inst.tangents(x, generic=2)]
        tangents.append(("zero", np.zeros(shape)))
        for c, g, h, rgrad in derivatives:
            eg = g(x)
            scale = 1e-300 + np.max(np.abs(eg)) * max(1, np.max(np.abs(x)))**2
            want = np.asarray(project(x, eg))
            got = rgrad(x)
            keep = np.array(got)
            near("riemannian_gradient", got, want, 50 * scale,
                 lambda: f"{c} at {label}", (c, label, "grad"))
            near("gradient", to_gradient(x, eg), want, 50 * scale,
                 lambda: f"{c} at {label}", (c, label, "conv"))
            near("gradient-class",
                 manifold.euclidean_to_riemannian_gradient(x, eg), want,
                 50 * scale, lambda: f"class differs, {c} at {label}",
                 (c, label, "class"))
            for vn, v in tangents:
                for factor in (1.0, -1e3, 1e-6) if deep else (1.0, -1e3):
                    d = factor * v
                    eh = h(x, d)
                    want = np.asarray(project(x, eh + bend(x, eg, d)))
                    scale = (np.max(np.abs(eh)) + np.max(np.abs(eg))
                             * np.max(np.abs(d)) + 1e-300) * max(
                                 1, np.max(np.abs(x)))**3
                    arrays = [x.copy(), eg.copy(), eh.copy(), d.copy()]
                    near("hessian", to_hessian(*arrays), want, 100 * scale,
                         lambda: f"{c} at {label} along {factor}*{vn}",
                         (c, label, vn, factor))
                    rec.check(all(
                        np.array_equal(p, q) for p, q in zip(
                            arrays, (x, eg, eh, d))), f"{name}/pure",
                        "arguments were modified")
                    near("hessian-class",
                         manifold.euclidean_to_riemannian_hessian(
                             x, eg, eh, d), want, 100 * scale,
                         lambda: f"class differs, {c} at {label} along "
                         f"{factor}*{vn}", (c, label, vn, factor, "class"))
            rec.check(np.array_equal(got, keep), f"{name}/stable",
                      "a gradient changed later")
        # every ambient gradient against every tangent direction
        for g in np.eye(x.size).reshape((-1,) + shape):
            for vn, v in tangents:
                want = np.asarray(project(x, bend(x, g, v)))
                near("weingarten", to_hessian(x, g, 0 * v, v), want,
                     100 * max(1, np.max(np.abs(x)))**3,
                     lambda: f"gradient {g} at {label} along {vn}",
                     (g.tobytes(), label, vn))
                rec.state((name, label, g.tobytes(), vn))
        rec.outcome(name)
