"""Derivative checkers tell right from wrong derivatives."""
import contextlib
import io
import itertools
import re

import numpy as np

import pymanopt
from pymanopt.tools import diagnostics

from .. import calculus, core, geo, opt, zoo

ID = "C33"
LEVEL = "model_checking"
RULE = (
    "state = (manifold, point, direction, derivative variant: correct or one "
    "of the catalogue of mistakes); transitions = one call of the real "
    "checker per state; its curve, its fitted slope, its plot and every "
    "figure it prints are compared with values computed from the recorded "
    "calls, and the reported order with the order that the planted mistake "
    "dictates; the segment finder is run on every curve of a grid of "
    "piecewise linear curves"
)
ASSUMPTIONS = geo.ASSUME + [
    "costs, gradients and directions of moderate size (the checkers use the "
    "step sizes 1e-8 to 1), mistakes of at least a percent",
    "manifolds whose retraction replaces a missing exponential have one of "
    "second order (true for all of pymanopt's that lack one)",
    "the order of a retraction is judged where the manifold's distance "
    "resolves the difference from the exponential",
]

FLOAT = r"([-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan|inf))"


def cases(tier):
    deep = tier == "thorough"
    out = [{"id": f"{what}/{n}", "what": what, "instance": n, "deep": deep}
           for what in ("hessian", "gradient", "retraction")
           for n in zoo.names(tier)]
    out += [{"id": f"segments/{w}", "what": "segments", "window": w,
             "deep": deep} for w in (3, 5, 10)]
    out += [{"id": f"arguments/{n}", "what": "arguments", "instance": n,
             "deep": deep} for i, n in enumerate(zoo.names(tier))
            if deep or i % 3 == 0]
    out += [{"id": f"exact/{n}", "what": "exact", "instance": n,
             "deep": deep} for n in zoo.names(tier)]
    return out


def run_case(case, rec):
    import matplotlib

    matplotlib.use("Agg", force=True)
    import matplotlib.pyplot as plt

    inst = zoo.by_name(case["instance"]) if "instance" in case else None
    if case["what"] == "hessian" and "hessian" in inst.lacks:
        rec.state((case["id"], "no Hessian"))
        rec.trace()
        return
    try:
        {"gradient": gradients, "hessian": hessians,
         "retraction": retractions, "segments": segments,
         "arguments": arguments, "exact": exacts}[case["what"]](case, rec, inst)
    finally:
        plt.close("all")


# -- running the checkers ---------------------------------------------------


class Report:
    def __init__(self, text, lines):
        self.text, self.lines = text, lines

    def figure(self, pattern):
        found = re.search(pattern, self.text)
        return None if found is None else [float(g) for g in found.groups()]


def invoke(rec, call):
    """Run a checker; returns what it prints and the lines that it plots."""
    import matplotlib.pyplot as plt

    plt.close("all")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        result = call()
    rec.step()
    lines = []
    for number in plt.get_fignums():
        for axes in plt.figure(number).axes:
            for line in axes.get_lines():
                lines.append((np.asarray(line.get_xdata(), dtype=float),
                              np.asarray(line.get_ydata(), dtype=float),
                              line.get_linestyle(), axes.get_xscale(),
                              axes.get_yscale()))
    plt.close("all")
    report = Report(out.getvalue(), lines)
    report.result = result
    return report


class Setup:
    """A problem with prescribed Riemannian derivatives."""

    def __init__(self, inst, gradient, hessian=None, offset=0.0):
        self.inst = inst
        self.m = inst.make()
        lay = self.m.point_layout
        n = int(np.sum(lay))
        dec = pymanopt.function.numpy(self.m)
        self.source = calculus.cost_for(inst)
        self.points, self.vectors = [], []

        @dec
        def cost(*args):
            x = opt.nest(args, lay)
            self.points.append(geo.copy(x))
            return self.source.cost(x) + offset

        @dec
        def riemannian_gradient(*args):
            return flat(gradient(opt.nest(args, lay)), lay)

        options = {}
        if hessian is not None:
            @dec
            def riemannian_hessian(*args):
                x, v = opt.nest(args[:n], lay), opt.nest(args[n:], lay)
                if type(lay) is not int:
                    v = type(inst.get().zero_vector(x))(v)
                elif lay > 1:
                    v = type(inst.get().zero_vector(x))(*v)
                self.vectors.append(geo.copy(v))
                return flat(hessian(x, v), lay)

            options["riemannian_hessian"] = riemannian_hessian
        self.problem = pymanopt.Problem(
            self.m, cost, riemannian_gradient=riemannian_gradient, **options)


def flat(value, lay):
    out = opt.unnest(value, lay)
    return out[0] if lay == 1 else list(out)


def add(a, s, b):
    return geo.lin(1.0, a, s, b)


class Truth:
    """The true derivatives at x."""

    def __init__(self, inst, x):
        self.inst, self.m, self.x = inst, inst.get(), x
        self.cost = calculus.cost_for(inst)
        self.egrad = self.cost.grad(x)
        self.curves = {}
        self.g = self.m.euclidean_to_riemannian_gradient(x, self.egrad)

    def hess(self, v):
        return self.m.euclidean_to_riemannian_hessian(
            self.x, self.egrad, self.cost.hess(
                self.x, self.inst.embed(self.x, v)), v)

    def along(self, d, h):
        """Costs along d (computed once)."""
        k = (zoo.flat(d).tobytes(), h.tobytes())
        if k not in self.curves:
            self.curves[k] = np.array([self.cost.cost(
                follow(self.m, self.x, s * d)) for s in h])
        return self.curves[k]

    def inner(self, u, v):
        return float(np.real(self.inst.inner(self.x, u, v)))

    def tangent_part(self, v):
        try:
            return self.m.to_tangent_space(self.x, v)
        except NotImplementedError:
            return None

    def normal(self, which):
        """A vector of the ambient space without tangential part, or None."""
        if self.inst.kind != "array":
            return None
        n = zoo.rnd(zoo.rng("c33-normal", self.inst.name, which),
                    self.inst.shape, self.inst.cplx)
        t = self.tangent_part(n)
        if t is None:
            return None
        n = n - t
        size = zoo.nrm(n)
        if size < 1e-3 or zoo.nrm(self.tangent_part(n)) > 1e-8 * size:
            return None
        return n / size


def situations(inst, deep, rec):
    """(label, x, d, other unit tangents) with unit directions d."""
    points = inst.points(generic=2)
    if not deep:
        points = points[:1] + points[-1:]
    for label, x in points:
        tv = inst.tangents(x, generic=3, maxbasis=2)
        if not tv:
            continue
        unit = [v * (1.0 / inst.norm(x, v)) if not isinstance(v, (list, tuple))
                or hasattr(v, "__mul__") and type(v) not in (list, tuple)
                else type(v)(p / inst.norm(x, v) for p in v) for _, v in tv]
        picks = range(len(unit)) if deep else (
            [0] if label == points[0][0] else [len(unit) - 1])
        for i in picks:
            for size in ((1.0, 0.1) if deep and i == picks[-1] else
                         (1.0,) if i else (0.3,)):
                d = size * unit[i]
                others = [u for j, u in enumerate(unit) if j != i] or [unit[i]]
                rec.trace()
                yield f"{label}/{tv[i][0]}/{size}", x, d, others


def follow(m, x, v):
    try:
        return m.exp(x, v)
    except NotImplementedError:
        return m.retraction(x, v)


# -- the curve and its slope ------------------------------------------------


def curve(rec, key, where, truth, d, model, offset, report):
    """Error curve, segment and polynomial against their definitions."""
    h, error, segment, poly = report.result
    h, error = np.asarray(h), np.asarray(error)
    good = rec.check(
        h.ndim == 1 and h.shape == error.shape and len(h) >= 20
        and np.all(np.diff(h) > 0) and h[0] > 0 and h[0] <= 1e-6
        and h[-1] >= 0.1, f"{key}/steps", lambda: f"{where}: h={h}")
    if not good:
        return None
    f0 = truth.cost.cost(truth.x) + offset
    values = truth.along(d, h) + offset
    want = np.abs(f0 + model(h) - values)
    size = np.maximum(1.0, np.abs(values)) + np.abs(model(h))
    rec.check(np.all(np.abs(error - want) <= 1e-12 * size + 1e-8 * want),
              f"{key}/curve", lambda: f"{where}: {error} instead of {want}",
              nontrivial=where)
    segment = np.asarray(segment)
    good = rec.check(
        len(segment) >= 3 and np.all(np.diff(segment) == 1)
        and 0 <= segment[0] and segment[-1] < len(h), f"{key}/segment",
        lambda: f"{where}: {segment}", nontrivial=where)
    if not good:
        return None
    rec.check(("Hessian" in report.text) == key.startswith("hessian"),
              f"{key}/named", lambda: f"{where}: printed {report.text!r}",
              nontrivial=where)
    exact = bool(np.all(error < 1e-12))
    rec.check(exact == ("exact" in report.text), f"{key}/exact",
              lambda: f"{where}: errors up to {error.max()}, printed "
              f"{report.text!r}", nontrivial=where)
    rec.outcome((key.split("/")[0], "exact" if exact else "curve"))
    if exact:
        return np.inf
    if np.all(error[segment] > 0):
        line = np.polyfit(np.log10(h[segment]), np.log10(error[segment]), 1)
    else:
        line = np.array([np.nan, np.nan])
    rec.check(np.allclose(line, poly, rtol=1e-6, atol=1e-6), f"{key}/line",
              lambda: f"{where}: line {poly}, the fit of the segment is "
              f"{line}", nontrivial=where)
    return float(poly[0])


def plotted(rec, key, where, report, orders, h, error, slope):
    """The plot shows the curve, the fitted line and the references."""
    logs = [p for p in report.lines if p[3] == p[4] == "log"]
    rec.check(any(len(x) == len(h) and np.allclose(x, h, rtol=1e-9) and
                  np.allclose(y, error, rtol=1e-6, atol=1e-300)
                  for x, y, *_ in logs), f"{key}/plot-curve",
              lambda: f"{where}: {len(logs)} lines, none is the error curve",
              nontrivial=where)

    def steep(x, y):
        if len(x) < 2 or np.any(x <= 0) or not np.all(y > 0):
            return None
        p = np.polyfit(np.log10(x), np.log10(y), 1)
        if np.max(np.abs(np.polyval(p, np.log10(x)) - np.log10(y))) > 1e-6:
            return None
        return p[0]

    refs = {round(steep(x, y), 3) for x, y, style, *_ in logs
            if style not in ("-", "solid") and steep(x, y) is not None}
    rec.check(refs == set(orders), f"{key}/plot-reference",
              lambda: f"{where}: references of slope {sorted(refs)} instead "
              f"of {orders}", nontrivial=where)
    if np.isfinite(slope):
        rec.check(any(steep(x, y) is not None and abs(steep(x, y) - slope)
                      <= 1e-6 for x, y, style, *_ in logs
                      if style in ("-", "solid")), f"{key}/plot-fit",
                  lambda: f"{where}: no line of slope {slope}",
                  nontrivial=where)


def verdict(rec, key, where, slope, order, wrong, scale, variant):
    """The reported slope is that of a right or of a wrong derivative."""
    wrong = abs(wrong)
    if wrong >= 3e-3 * scale:
        rec.check(slope < order - 0.5, f"{key}/wrong-accepted",
                  lambda: f"{where}: off by {wrong:.3g} along the direction "
                  f"but reported with slope {slope}", nontrivial=where)
        rec.outcome((key.split("/")[0], variant, "wrong"))
    elif wrong <= 1e-12 * scale:
        rec.check(slope > order - 0.15, f"{key}/right-rejected",
                  lambda: f"{where}: correct along the direction but reported "
                  f"with slope {slope}", nontrivial=where)
        rec.outcome((key.split("/")[0], variant, "right"))


def near(got, want, scale):
    return got is not None and abs(got - want) <= 2e-5 * abs(
        want) + 1e-9 * scale


def gradient_variants(truth, d, others):
    g, x = truth.g, truth.x
    u = others[0]
    dd = truth.inner(d, d)
    out = {
        "correct": g,
        "scaled": 1.5 * g,
        "percent": 1.01 * g,
        "negated": -1.0 * g,
        "zero": 0.0 * g,
        "missing": add(g, -truth.inner(g, d) / dd, d),
        "offset": add(g, 0.3, u),
        "along": add(g, 0.5, d),
    }
    n = truth.normal(0)
    if n is not None:
        out["nontangent"] = add(g, 0.3, n)
        out["both"] = add(add(g, 0.5, d), -2.0, n)
    return out


RESIDUAL = r"close to 0: " + FLOAT + r"\.?\s"


def gradients(case, rec, inst):
    deep, name = case["deep"], inst.name
    count = 0
    for where, x, d, others in situations(inst, deep, rec):
        truth = Truth(inst, x)
        scale = max(1e-3, inst.norm(x, truth.g), 1.0) * max(
            1e-3, inst.norm(x, d))
        for variant, g in gradient_variants(truth, d, others).items():
            for offset in (0.0, 1e3) if variant == "correct" else (0.0,):
                spot = f"{where}/{variant}/{offset}"
                rec.state((name, spot))
                s = Setup(inst, lambda _: g, offset=offset)
                slope0 = truth.inner(g, d)
                r = invoke(rec, lambda: diagnostics.check_directional_derivative(
                    s.problem, x, d))
                slope = curve(rec, "gradient", f"{name} {spot}", truth, d,
                              lambda h: slope0 * h, offset, r)
                if slope is None:
                    continue
                verdict(rec, "gradient", f"{name} {spot}", slope, 2,
                        slope0 - truth.inner(truth.g, d), scale, variant)
                h, error = r.result[:2]
                count += 1
                if count % 4 and "nontangent" not in variant:
                    continue
                r = invoke(rec, lambda: diagnostics.check_gradient(
                    s.problem, x, d))
                plotted(rec, "gradient", f"{name} {spot}", r, (2.0,), h,
                        error, slope)
                part = truth.tangent_part(g)
                if part is None:
                    rec.check("unable" in r.text and "esidual" not in r.text,
                              "gradient/unable", lambda: f"{name}: {r.text!r}",
                              nontrivial=spot)
                    continue
                want = float(np.real(inst.get().norm(x, add(g, -1.0, part))))
                got = r.figure(RESIDUAL)
                rec.check(got is not None and near(got[0], want, scale),
                          "gradient/residual", lambda: f"{name} {spot}: "
                          f"printed {got}, the normal part has norm {want}",
                          nontrivial=spot)


def hessian_variants(truth, d, others):
    def plus(f):
        return lambda v: add(truth.hess(v), 1.0, f(v))

    a, b = others[0], others[-1]
    if len(others) < 2:
        b = d
    norm = truth.inst.norm
    out = {
        "correct": truth.hess,
        "scaled": lambda v: 1.5 * truth.hess(v),
        "negated": lambda v: -1.0 * truth.hess(v),
        "zero": lambda v: 0.0 * v,
        "identity": plus(lambda v: 0.5 * v),
        "skew": plus(lambda v: geo.lin(
            0.7 * truth.inner(a, v), b, -0.7 * truth.inner(b, v), a)),
        "oblique": plus(lambda v: truth.inner(a, v) * b),
        "constant": plus(lambda v: 0.6 * a),
        "homogeneous": plus(lambda v: norm(truth.x, v) * b),
        "cubic": plus(lambda v: 0.4 * truth.inner(v, v) * v),
        "absolute": plus(lambda v: abs(truth.inner(a, v)) * a),
    }
    n = truth.normal(0)
    if n is not None:
        out["nontangent"] = plus(lambda v: (0.3 + truth.inner(v, d)) * n)
    return out


LINEAR = r"H\[d2\] should be very close to 0: " + FLOAT + r"\.?\s"
SYMMETRIC = (r"close to zero: " + FLOAT + r" - " + FLOAT + r" = " + FLOAT
             + r"\.?\s")
HRESIDUAL = r"Residual: " + FLOAT + r"\.?\s"


def hessians(case, rec, inst):
    deep, name = case["deep"], inst.name
    count = 0
    for where, x, d, others in situations(inst, deep, rec):
        truth = Truth(inst, x)
        right = truth.inner(truth.hess(d), d)
        first = truth.inner(truth.g, d)
        dd = truth.inner(d, d)
        scale = max(1.0, inst.norm(x, truth.hess(others[0])),
                    abs(right) / dd, inst.norm(x, truth.g))
        for variant, hess in hessian_variants(truth, d, others).items():
            spot = f"{where}/{variant}"
            rec.state((name, spot))
            s = Setup(inst, lambda _: truth.g, lambda _, v: hess(v))
            second = truth.inner(hess(d), d)
            r = invoke(rec, lambda: diagnostics.check_directional_derivative(
                s.problem, x, d, use_quadratic_model=True))
            slope = curve(rec, "hessian", f"{name} {spot}", truth, d,
                          lambda h: first * h + second * h**2 / 2, 0.0, r)
            if slope is None:
                continue
            verdict(rec, "hessian", f"{name} {spot}", slope, 3,
                    second - right, 3 * scale * dd, variant)
            h, error = r.result[:2]
            count += 1
            if count % 5 and variant not in (
                    "skew", "nontangent"):
                continue
            s.vectors.clear()
            np.random.seed(core.digest((name, spot)) % 2**32 if isinstance(
                core.digest(0), int) else len(spot))
            r = invoke(rec, lambda: diagnostics.check_hessian(
                s.problem, x, d))
            plotted(rec, "hessian", f"{name} {spot}", r, (3.0,), h, error,
                    slope)
            part = truth.tangent_part(hess(d))
            if part is not None:
                want = float(np.real(inst.get().norm(
                    x, add(hess(d), -1.0, part))))
                got = r.figure(HRESIDUAL)
                rec.check(got is not None and near(got[0], want, scale),
                          "hessian/residual", lambda: f"{name} {spot}: "
                          f"printed {got}, the normal part has norm {want}",
                          nontrivial=spot)
            figures(rec, truth, hess, s.vectors, r, scale, f"{name} {spot}",
                    inst)


def figures(rec, truth, hess, vectors, report, scale, where, inst):
    """Linearity and symmetry figures against the recorded evaluations."""
    uniq = []
    for v in vectors:
        if not any(zoo.gap(v, u) <= 1e-14 * max(1, zoo.nrm(u)) for u in uniq):
            uniq.append(v)
    values = [hess(v) for v in uniq]
    got = report.figure(LINEAR)
    if not rec.check(got is not None and np.isfinite(got[0]),
                     "hessian/linearity-printed",
                     lambda: f"{where}: {report.text!r}", nontrivial=where):
        return
    big = max([1.0] + [inst.norm(truth.x, v) for v in uniq]) ** 3
    rows = [zoo.flat(v) for v in uniq]
    rows = [np.concatenate([np.real(r), np.imag(r)]) for r in rows]
    candidates = []
    for i, j in itertools.combinations(range(len(uniq)), 2):
        pair = np.stack([rows[i], rows[j]], axis=1)
        for k in range(len(uniq)):
            if k in (i, j):
                continue
            w, _, rank, _ = np.linalg.lstsq(pair, rows[k], rcond=1e-8)
            if rank == 2 and np.linalg.norm(
                    pair @ w - rows[k]) <= 1e-9 * np.linalg.norm(rows[k]):
                candidates.append(float(np.real(inst.get().norm(
                    truth.x, add(add(values[k], -w[0], values[i]), -w[1],
                                 values[j])))))
    if len(inst.basis(truth.x)) >= 2:
        rec.check(any(near(got[0], c, 1e-2 * scale * big)
                      for c in candidates),
                  "hessian/linearity", lambda: f"{where}: printed {got}, "
                  f"possible values {candidates}", nontrivial=where)
    got = report.figure(SYMMETRIC)
    if not rec.check(got is not None and np.all(np.isfinite(got)),
                     "hessian/symmetry-printed",
                     lambda: f"{where}: {report.text!r}", nontrivial=where):
        return
    pairs = [(truth.inner(uniq[i], values[j]), truth.inner(values[i], uniq[j]))
             for i, j in itertools.product(range(len(uniq)), repeat=2)]
    rec.check(any(near(got[0], a, scale * big) and near(got[1], b, scale * big)
                  and near(got[2], a - b, scale * big) for a, b in pairs),
              "hessian/symmetry", lambda: f"{where}: printed {got}, possible "
              f"values {pairs}", nontrivial=where)


# -- retractions ------------------------------------------------------------

SLOPE = r"slope is: " + FLOAT
IDENTICAL = r"should be zero: " + FLOAT


def retraction_variants(inst, x, d, others):
    m, u = inst.get(), others[0]
    norm = inst.norm

    def long(v):
        return max(1e-300, norm(x, v))

    out = {
        "own": (m.retraction, None),
        "exponential": (m.exp, None),
        "speed": (lambda x, v: m.exp(x, 1.2 * v), 1.0),
        "backwards": (lambda x, v: m.exp(x, -1.0 * v), 1.0),
        "offset": (lambda x, v: m.exp(x, add(v, 0.05, u)), 0.0),
        "turned": (lambda x, v: m.exp(x, add(v, 0.1 * long(v), u)), 1.0),
        "bent": (lambda x, v: m.exp(x, add(v, 0.3 * long(v) ** 2, u)), 2.0),
        "cubic": (lambda x, v: m.exp(x, add(v, 0.3 * long(v) ** 3, u)), 3.0),
    }
    return out


def straightest(h, error):
    """Slope of the straightest stretch of errors that change at all."""
    best = (np.inf, np.nan)
    for k in range(len(h) - 10):
        a, b = np.log10(h[k:k + 11]), error[k:k + 11]
        if np.all(b > 0) and np.ptp(np.log10(b)) > 1e-6:
            poly, rest, *_ = np.polyfit(a, np.log10(b), 1, full=True)
            best = min(best, (float(rest[0]), float(poly[0])))
    return best[1]


def retractions(case, rec, inst):
    deep, name = case["deep"], inst.name
    m0 = inst.get()
    count = 0
    x0 = inst.points(generic=1)[-1][1]
    v0 = inst.tangents(x0, generic=1, maxbasis=0)[-1][1]
    for what, call in (("exp", lambda: m0.exp(x0, v0)),
                       ("retraction", lambda: m0.retraction(x0, v0)),
                       ("dist", lambda: m0.dist(x0, x0))):
        try:
            call()
        except NotImplementedError:
            try:
                invoke(rec, lambda: diagnostics.check_retraction(
                    inst.make(), x0, v0))
                refused = False
            except RuntimeError:
                refused = True
            rec.state((name, "lacks", what))
            rec.trace()
            rec.check(refused, "retraction/missing",
                      lambda: f"{name} lacks {what}", nontrivial=name)
            return
    for where, x, d, others in list(situations(inst, deep, rec))[
            0 if deep else -1:]:
        for variant, (retraction, order) in retraction_variants(
                inst, x, d, others).items():
            count += 1
            if not deep and count % 2 and variant not in ("own", "bent"):
                continue
            spot = f"{where}/{variant}"
            rec.state((name, spot))
            m = inst.make()
            if variant != "own":
                m.retraction = retraction
            r = invoke(rec, lambda: diagnostics.check_retraction(m, x, d))
            slope, size = r.figure(SLOPE), r.figure(IDENTICAL)
            if not rec.check(slope is not None and size is not None,
                             "retraction/printed", lambda: f"{name} {spot}: "
                             f"{r.text!r}", nontrivial=spot):
                continue
            slope, size = slope[0], size[0]
            longest = max(r.lines, key=lambda p: len(p[0]))
            h, error = longest[:2]
            every = 2 if deep else 6
            want = np.array([float(m0.dist(m0.exp(x, s * d), retraction(
                x, s * d))) for s in h[::every]])
            rec.check(np.all(np.abs(error[::every] - want) <= 1e-9 * want
                             + 1e-13),
                      "retraction/curve", lambda: f"{name} {spot}: {error} "
                      f"instead of {want}", nontrivial=spot)
            total = np.linalg.norm(error)
            rec.check(abs(size - total) <= 1e-6 * total + 1e-11,
                      "retraction/size", lambda: f"{name} {spot}: printed "
                      f"{size} instead of {total}", nontrivial=spot)
            plotted(rec, "retraction", f"{name} {spot}", r, (2.0, 3.0), h,
                    error, slope)
            noise = max(float(m0.dist(p, p)) for p in (
                m0.exp(x, s * d) for s in h[::24]))
            if variant == "exponential" or error.max() <= max(
                    1e-12, 1e3 * noise):
                rec.outcome(("retraction", variant, "identical"))
                continue  # identical: the slope is irrelevant
            if noise > 1e-13 and abs(slope) < 0.01:
                rec.outcome(("retraction", variant, "plateau"))
                continue  # the distance of equal points is not zero

            def fits(slope):
                return (slope > 1.9 if order is None else
                        abs(slope - order) <= 0.15)

            if np.isfinite(slope) and not fits(slope) and not fits(
                    straightest(h, error)):
                rec.outcome(("retraction", variant, "unresolved"))
                continue  # round-off of the distance itself looks straight
            fits = fits(slope)
            rec.outcome(("retraction", variant, f"{slope:.0f}"))
            rec.check(fits, "retraction/order", lambda: f"{name} {spot}: "
                      f"reported slope {slope}, order {order}",
                      nontrivial=spot)


# -- the segment finder -----------------------------------------------------


def segments(case, rec, inst):
    """Curves with noise, a straight piece and a bent piece."""
    w = case["window"]
    n = 40
    x = np.linspace(-8, 0, n + 1)
    r = zoo.rng("c33-segments")
    noise = r.uniform(-1, 1, size=n + 1)
    spots = range(0, n - w, 1 if case["deep"] else 3)
    for slope, start, extra, level, kind in itertools.product(
            (0.5, 1.0, 2.0, 3.0, -1.0), spots, (0, 1, w),
            (1.0, 1e-2), ("noise", "bent", "zeros", "plateau")):
        stop = min(n, start + w + extra)
        label = (slope, start, extra, level, kind)
        y = slope * x + 3.0
        outside = np.ones(n + 1, dtype=bool)
        outside[start:stop + 1] = False
        if kind == "noise":
            y[outside] += level * noise[outside]
        elif kind == "bent":
            y[outside] += level * np.abs(
                np.arange(n + 1)[outside] - (start + stop) / 2) ** 2
        else:
            y[:start] = -np.inf if kind == "zeros" else -16.0
            y[stop + 1:] += level * noise[stop + 1:]
        if np.sum(outside) < 2 and extra == 0:
            continue
        seg, poly = diagnostics.identify_linear_piece(x, y, w)
        rec.step()
        rec.trace()
        rec.state((w,) + label)
        seg = np.asarray(seg)
        rec.outcome(("segments", kind, slope))
        rec.check(
            len(seg) >= w and np.all(np.diff(seg) == 1)
            and seg[0] >= start - 1 and seg[-1] <= stop + 1
            and abs(poly[0] - slope) <= 1e-3 + 0.05 * (level < 1)
            and abs(poly[1] - 3.0) <= 0.1 + 0.5 * (level < 1),
            "segments/straight", lambda: f"window {w} {label}: segment {seg}, "
            f"line {poly}, straight from {start} to {stop}", nontrivial=label)


# -- optional arguments -----------------------------------------------------


def arguments(case, rec, inst):
    """Points and directions are drawn when omitted, and validated."""
    name = inst.name
    x = inst.points(generic=1)[-1][1]
    d = inst.tangents(x, generic=1, maxbasis=0)[-1][1]
    able = "hessian" not in inst.lacks

    def gradient(p):
        return Truth(inst, p).g

    def hessian(p, v):
        return Truth(inst, p).hess(v)

    s = Setup(inst, gradient, hessian if able else None)
    moves = []
    for op in ("exp", "retraction"):
        original = getattr(s.m, op)

        def wrapped(p, v, original=original):
            moves.append((geo.copy(p), geo.copy(v)))
            return original(p, v)

        setattr(s.m, op, wrapped)
    calls = {"gradient": (diagnostics.check_gradient, s.problem, "d"),
             "directional": (diagnostics.check_directional_derivative,
                             s.problem, "d")}
    if able:
        calls["hessian"] = (diagnostics.check_hessian, s.problem,
                            "tangent_vector")
    try:
        inst.get().exp(x, d), inst.get().dist(x, x)
        calls["retraction"] = (diagnostics.check_retraction, s.m, None)
    except NotImplementedError:
        pass
    for what, (call, target, keyword) in calls.items():
        for given in ("none", "point"):
            moves.clear()
            np.random.seed(5)
            with np.errstate(all="ignore"):
                invoke(rec, lambda: call(target) if given == "none"
                       else call(target, x))
            rec.state((name, what, given))
            rec.trace()
            base = moves[0][0]
            rec.outcome((what, given))
            rec.check(
                inst.on_manifold(base) and all(
                    zoo.gap(p, base) == 0 for p, _ in moves)
                and (given == "none" or zoo.gap(base, x) == 0),
                "arguments/point", lambda: f"{name} {what} {given}: "
                f"examined {base}", nontrivial=(name, what, given))
            p, v = max(moves, key=lambda t: zoo.nrm(t[1]))
            rec.check(
                inst.is_tangent(p, v, 1e-7) and inst.norm(p, v) > 1e-6,
                "arguments/direction", lambda: f"{name} {what} {given}: "
                f"direction {v}", nontrivial=(name, what, given))
        if keyword is not None:
            try:
                invoke(rec, lambda: call(target, **{keyword: d}))
                refused = False
            except ValueError:
                refused = True
            rec.check(refused, "arguments/direction-alone",
                      lambda: f"{name} {what}: accepted a direction "
                      "without its point", nontrivial=(name, what))


def exacts(case, rec, inst):
    """Costs that the models represent exactly, and almost exactly."""
    able = "hessian" not in inst.lacks
    flat_space = inst.kind == "array" and inst.sl.__class__.__name__ in (
        "EuclideanS", "SymS", "SkewS")
    for where, x, d, _ in situations(inst, case["deep"], rec):
        zero = 0.0 * d
        m = inst.get()
        costs = [("constant", lambda y: 0.5, zero, lambda v: zero)]
        if flat_space:
            a = m.to_tangent_space(x, zoo.rnd(zoo.rng(
                "c33-exact", inst.name), inst.shape, inst.cplx))

            def linear(y):
                return float(np.real(np.vdot(a, y - x)))

            def square(y):
                return 0.5 * float(np.real(np.vdot(y - x, y - x)))

            costs += [("linear", linear, a, lambda v: zero),
                      ("square", square, zero, lambda v: v)]
        for label, f, g, h in costs:
            for kind in ("gradient", "hessian"):
                if kind == "hessian" and not able:
                    continue
                one_exact(rec, inst, f"{inst.name} {where} {label}", kind,
                          x, d, f, g, h)


def one_exact(rec, inst, where, kind, x, d, f, g, h):
    m = inst.make()
    lay = m.point_layout
    n = int(np.sum(lay))
    dec = pymanopt.function.numpy(m)
    problem = pymanopt.Problem(
        m, dec(lambda *a: f(opt.nest(a, lay))),
        riemannian_gradient=dec(lambda *a: flat(g, lay)),
        riemannian_hessian=dec(
            lambda *a: flat(h(d if n > 1 or lay != 1 else a[1]), lay)))
    second = kind == "hessian"
    with np.errstate(all="ignore"):
        r = invoke(rec, lambda: diagnostics.check_directional_derivative(
            problem, x, d, use_quadratic_model=second))
        steps, error = r.result[:2]
        rec.state(where + kind)
        # h(d) is only used with d itself or where it is constant
        slope = float(np.real(inst.inner(x, g, d)))
        bend = float(np.real(inst.inner(x, h(d), d))) if second else 0.0
        f0 = f(x)
        want = np.abs(f0 + slope * steps + 0.5 * bend * steps**2 - np.array(
            [f(follow(m, x, s * d)) for s in steps]))
    rec.check(np.all(np.abs(error - want) <= 1e-14 * (
        1 + abs(slope) + abs(bend) + abs(f0)) + 1e-9 * want),
              f"exact/{kind}/curve",
              lambda: f"{where}: {error} instead of {want}", nontrivial=where)
    size = error.max()
    told = [w for w in ("linear", "quadratic")
            if f"{w} model is exact" in r.text]
    wanted = ["quadratic" if second else "linear"]
    rec.outcome(("exact", kind, bool(size < 1e-12)))
    if size < 5e-13:
        rec.check(told == wanted and "match" not in r.text,
                  f"exact/{kind}/told", lambda: f"{where}: errors up to "
                  f"{size}, printed {r.text!r}", nontrivial=where)
    if size > 2e-12:
        rec.check(not told, f"exact/{kind}/told", lambda: f"{where}: errors "
                  f"up to {size}, printed {r.text!r}", nontrivial=where)
    call = diagnostics.check_hessian if second else (
        diagnostics.check_gradient)
    np.random.seed(4)
    with np.errstate(all="ignore"):
        r = invoke(rec, lambda: call(problem, x, d))
    rec.check(any(len(a) == len(steps) and np.allclose(a, steps, rtol=1e-9)
                  and np.allclose(b, error, rtol=1e-6, atol=1e-300)
                  for a, b, *_ in r.lines), f"exact/{kind}/plot",
              lambda: f"{where}: the curve is not among {len(r.lines)} lines",
              nontrivial=where)
