"""Trust regions follow the trust-region rules."""
import itertools

import numpy as np

import pymanopt
from pymanopt import optimizers

from .. import core, geo, opt, zoo

ID = "C26"
LEVEL = "model_checking"
RULE = (
    "state = (sign pattern of the model's curvature, options, sequence of "
    "answered decrease ratios); transitions = one outer iteration of the real "
    "optimizer, run in lockstep with a reference trust-region machine in "
    "coordinates (radius, iterate, truncated conjugate gradients); every step "
    "handed to the retraction, every acceptance and every radius is compared"
)
ASSUMPTIONS = opt.ASSUME + [
    "decisions closer than 1e-9 (relative) to a threshold are not judged; the "
    "run is followed only up to the first such decision",
]

RATIOS = (-1.0, 0.05, 0.2, 0.249, 0.251, 0.5, 0.749, 0.751, 2.0)
SPECIAL = (np.inf, np.nan)
EIGEN = (2.0, 0.3, 0.0, -1.0)
OPTIONS = {
    "default": {},
    "small": {"run": {"Delta_bar": 1.0}},
    "full": {"run": {"Delta_bar": 0.8, "Delta0": 0.8}},
    "tiny": {"run": {"Delta0": 1e-3}},
    "huge": {"run": {"Delta_bar": 1e3, "Delta0": 1e2}},
    "strict": {"rho_prime": 0.22, "theta": 0.5, "kappa": 0.5},
    "loose": {"rho_prime": 0.0, "theta": 0.0, "kappa": 0.9},
    "sharp": {"kappa": 1e-3, "theta": 2.0, "run": {"Delta_bar": 50.0}},
    "inner1": {"run": {"maxinner": 1, "Delta_bar": 50.0}},
    "inner2": {"kappa": 0.9, "theta": 0.0,
               "run": {"mininner": 2, "Delta_bar": 50.0}},
    "inner0": {"kappa": 0.9, "theta": 0.0,
               "run": {"mininner": 0, "Delta_bar": 50.0}},
    "regular": {"rho_regularization": 1e13},
    "random": {"use_rand": True},
    "random-small": {"use_rand": True,
                     "run": {"Delta_bar": 1.0, "Delta0": 1e-8}},
    "random-inner1": {"use_rand": True,
                      "run": {"maxinner": 1, "Delta_bar": 4.0}},
    "precond": {"precondition": True},
    "precond-full": {"precondition": True,
                     "run": {"Delta_bar": 0.8, "Delta0": 0.8}},
    "precond-inner": {"precondition": True, "kappa": 0.5,
                      "run": {"Delta_bar": 50.0}},
}
WORLDS = ("plane", "space", "sphere", "stiefel", "pd", "hyperbolic",
          "product", "grassmann", "own")


def _insts():
    out = {n: opt.inst(n) for n in WORLDS if n != "space"}
    out["space"] = zoo._euclid(3)
    return out


def patterns(name):
    d = int(_insts()[name].get().dim)
    return [p for p in itertools.product(range(len(EIGEN)), repeat=d)
            if d <= 2 or list(p) == sorted(p) or name == "space"] \
        if d <= 3 else [(0, 1, 2, 3)[:d], (0,) * d, (3, 1, 0, 0)[:d],
                        (0, 1) * (d // 2)]


def cases(tier):
    deep = tier == "thorough"
    out = []
    for name in WORLDS:
        for p in patterns(name):
            plain = name in ("plane", "sphere") or deep
            out.append({"id": f"{name}/{p}", "world": name, "pattern": p,
                        "options": ["default", "small"] if plain
                        else ["default"],
                        "deviations": 2 if deep else 1, "depth": 5,
                        "length": 6 if deep else 5})
    for o in OPTIONS:
        for name in ("plane", "space", "sphere", "pd"):
            ps = patterns(name)
            chosen = ps if deep and name != "space" else [
                p for p in ps if sorted(p) in (
                    [0, 1], [0, 3], [0, 1, 1], [0, 1, 3], [1, 1], [0, 0, 1])]
            if o in ("random", "precond", "regular") or name in (
                    "plane", "space") or deep:
                for p in chosen:
                    out.append({"id": f"{name}/{p}/{o}", "world": name,
                                "pattern": p, "options": [o],
                                "deviations": 1, "depth": 4, "length": 5})
    for name, p in (("plane", (0, 1)), ("plane", (0, 3)),
                    ("space", (0, 1, 1)), ("sphere", (1, 3))):
        for o in ("default", "full", "random", "precond", "strict"):
            out.append({"id": f"deep/{name}/{p}/{o}", "world": name,
                        "pattern": p, "options": [o], "depth": 4,
                        "deviations": 3 if deep else 2, "length": 5})
    return sorted(out, key=lambda c: -c["deviations"])


class Machine:
    """Reference trust-region method in coordinates."""

    def __init__(self, rec, inst, pattern, label, options, run, chooser,
                 frames):
        self.rec, self.inst, self.label = rec, inst, label
        self.m = inst.make()
        self.chooser = chooser
        self.options, self.run_options = options, run
        self.eigen = [EIGEN[i] for i in pattern]
        d = len(self.eigen)
        self.d = d
        r = zoo.rng("c26", d)
        q = zoo.orth(r.normal(size=(d, d)))
        self.hess = zoo.sym(q @ np.diag(self.eigen) @ q.T)
        a = r.normal(size=(d, d))
        self.precon = np.eye(d) * 0.7 + 0.3 * a @ a.T
        self.gradients = [
            1.5 * unit(r.normal(size=d)), 0.05 * unit(r.normal(size=d)),
            0.4 * q[:, 0], 20.0 * unit(r.normal(size=d)),
            2e-3 * unit(r.normal(size=d)), 0.8 * unit(r.normal(size=d)),
        ]
        self.frames = frames
        self.memo = {}
        self.given = {}
        try:
            typical = inst.get().typical_dist
        except NotImplementedError:
            typical = np.sqrt(d)
        bar = run.get("Delta_bar", typical)
        self.bar = bar
        self.delta = run.get("Delta0", bar / 8)
        self.k = 0
        self.x = None
        self.lost = False
        self.pending = None
        self.random = None
        self.trace = []

    # frames
    def frame(self, x):
        k = opt.key(x)
        if k not in self.frames:
            basis = self.inst.basis(x)
            gram = np.array([[self.inst.inner(x, a, b) for b in basis]
                             for a in basis])
            w = np.linalg.inv(np.linalg.cholesky(gram))
            self.frames[k] = [
                self.inst.unbasis(row, basis) for row in w]
        return self.frames[k]

    def vector(self, x, c):
        return self.inst.unbasis(c, self.frame(x))

    def coordinates(self, x, v):
        return np.array([self.inst.inner(x, b, v) for b in self.frame(x)])

    # environment
    def gradient_at(self, x):
        k = opt.key(x)
        if k not in self.given:
            self.given[k] = self.gradients[
                len(self.given) % len(self.gradients)]
        return self.given[k]

    def cost(self, x):
        k = opt.key(x)
        if k not in self.memo:
            if not self.memo:
                self.memo[k] = 3.0
                self.x, self.fx = geo.copy(x), 3.0
            else:
                self.memo[k] = self.answer()
        value = self.memo[k]
        if self.pending is not None and opt.key(self.pending["new"]) == k:
            self.update(value)
        return value

    def answer(self):
        c = self.chooser.choose(1 + len(RATIOS) + len(SPECIAL), "ratio")
        pred = self.pending["pred"] if self.pending else 1.0
        fx = self.fx
        if c == 0:
            return fx - pred
        if c <= len(RATIOS):
            return fx - RATIOS[c - 1] * pred
        return SPECIAL[c - 1 - len(RATIOS)]

    def problem(self):
        m, lay = self.m, self.m.point_layout
        n = int(np.sum(lay))
        dec = pymanopt.function.numpy(m)

        @dec
        def cost(*args):
            return self.cost(opt.nest(args, lay))

        @dec
        def gradient(*args):
            x = opt.nest(args, lay)
            v = self.vector(x, self.gradient_at(x))
            out = opt.unnest(v, lay)
            return out[0] if lay == 1 else list(out)

        @dec
        def hessian(*args):
            x, v = opt.nest(args[:n], lay), opt.nest(args[n:], lay)
            c = self.coordinates(x, v)
            out = opt.unnest(self.vector(x, self.hess @ c), lay)
            return out[0] if lay == 1 else list(out)

        options = {}
        if self.options.get("precondition"):
            def preconditioner(x, v):
                return self.vector(x, self.precon @ self.coordinates(x, v))

            options["preconditioner"] = preconditioner
        original = m.retraction

        def retraction(x, eta):
            new = original(x, eta)
            self.propose(x, eta, new)
            return new

        draw = m.random_tangent_vector

        def random_tangent_vector(x):
            self.random = draw(x)
            return self.random

        m.retraction = retraction
        m.random_tangent_vector = random_tangent_vector
        return pymanopt.Problem(
            m, cost, riemannian_gradient=gradient,
            riemannian_hessian=hessian, **options)

    # the reference machine
    def model(self, g, c):
        return float(g @ c + 0.5 * c @ self.hess @ c)

    def pnorm(self, c):
        if self.options.get("precondition"):
            return float(np.sqrt(c @ np.linalg.solve(self.precon, c)))
        return float(np.linalg.norm(c))

    def tcg(self, g, start):
        """Steihaug-Toint; (step, boundary hit, ambiguous)."""
        h, delta = self.hess, self.delta
        pre = self.options.get("precondition")
        p = self.precon if pre else np.eye(self.d)
        pin = np.linalg.inv(p)
        theta = self.options.get("theta", 1.0)
        kappa = self.options.get("kappa", 0.1)
        mininner = self.run_options.get("mininner", 1)
        maxinner = self.run_options.get("maxinner", self.d)
        eta = start
        r = g + h @ eta
        r0 = np.linalg.norm(r)
        target = r0 * min(r0**theta, kappa)
        z = p @ r
        d = -z
        zr = r @ z
        doubtful = False
        for j in range(maxinner):
            dhd = d @ h @ d
            size = (d @ d) * max(1e-3, np.abs(self.eigen).max())
            flat = abs(dhd) <= 1e-12 * size
            alpha = zr / dhd if dhd != 0 else np.inf
            out = dhd <= 0
            if not out:
                new = eta + alpha * d
                norm = np.sqrt(new @ pin @ new)
                doubtful |= abs(norm / delta - 1) < 1e-9
                # flat directions leave the region whatever the sign
                doubtful |= flat and norm < 1e3 * delta
                out = norm >= delta
            if out:
                e, c, b = (d @ pin @ d, eta @ pin @ d,
                           eta @ pin @ eta - delta**2)
                tau = (-c + np.sqrt(c * c - e * b)) / e
                return eta + tau * d, True, doubtful
            eta = new
            r = r + alpha * (h @ d)
            norm = np.linalg.norm(r)
            if j >= mininner:
                doubtful |= abs(norm / target - 1) < 1e-9
                if norm <= target:
                    return eta, False, doubtful
            if norm <= 1e-9 * r0 and j + 1 < maxinner:
                # converged without stopping: rounding decides
                return eta, False, True
            z = p @ r
            beta, zr = (z @ r) / zr, z @ r
            d = -z + beta * d
        return eta, False, doubtful

    def cauchy(self, g, metric=None):
        """Best step along the (preconditioned) negative gradient."""
        pre = self.options.get("precondition")
        d = -(self.precon @ g) if pre else -g
        top = self.delta / self.pnorm(d)
        curve = d @ self.hess @ d
        t = top if curve <= 0 else min(top, -(g @ d) / curve)
        return t * d

    def propose(self, x, eta, new):
        rec, label = self.rec, self.label
        self.k += 1
        g = self.gradient_at(x)
        got = self.coordinates(x, eta)
        self.pending = {"new": geo.copy(new), "eta": got,
                        "pred": -self.model(g, got)}
        if self.lost:
            return
        how = f"iteration {self.k}, answers {self.trace}"
        rec.check(opt.key(x) == opt.key(self.x), f"{label}/iterate",
                  lambda: f"{how}: step from {x}, the iterate is {self.x}",
                  nontrivial=how)
        if opt.key(x) != opt.key(self.x):
            self.lost = True
            return
        rec.check(
            self.pnorm(got) <= self.delta * (1 + 1e-8), f"{label}/radius",
            lambda: f"{how}: step of length {self.pnorm(got)} in a region of "
            f"radius {self.delta}", nontrivial=how)
        rec.check(0 < self.delta <= self.bar * (1 + 1e-12),
                  f"{label}/maximum", lambda: f"{how}: {self.delta}")
        c = self.cauchy(g)
        mc, mg = self.model(g, c), self.model(g, got)
        enough = mc + 1e-9 * abs(mc)
        rec.check(mg <= enough, f"{label}/cauchy",
                  lambda: f"{how}: model value {mg}, Cauchy point {mc}",
                  nontrivial=how)
        start = np.zeros(self.d)
        if self.options.get("use_rand"):
            start = 1e-6 * self.coordinates(x, self.random)
            while np.linalg.norm(start) > self.delta:
                start = np.sqrt(np.sqrt(np.spacing(1))) * start
        want, boundary, doubtful = self.tcg(g, start)
        if self.options.get("use_rand"):
            cg = self.cauchy(g)
            a, b = self.model(g, cg), self.model(g, want)
            if abs(a - b) <= 1e-9 * abs(a):
                doubtful = doubtful or zoo.gap(cg, want) > 1e-9
            elif a < b:
                want = cg
        if doubtful:
            self.lost = True
            rec.outcome("threshold")
            return
        self.pending["boundary"] = boundary
        rec.check(
            zoo.gap(got, want) <= 1e-6 * np.linalg.norm(want),
            f"{label}/inner",
            lambda: f"{how}: step {got}, truncated CG gives {want} (radius "
            f"{self.delta}, gradient {g}, curvatures {self.eigen})",
            nontrivial=how)
        rec.outcome("boundary" if boundary else "interior")

    def update(self, value):
        """Acceptance and radius after the proposal's cost is known."""
        p, self.pending = self.pending, None
        if self.lost:
            return
        spacing = np.spacing(1)
        reg = max(1, abs(self.fx)) * spacing * self.options.get(
            "rho_regularization", 1e3)
        num, den = self.fx - value + reg, p["pred"] + reg
        rho = num / den
        for t in (0.25, 0.75, self.options.get("rho_prime", 0.1)):
            if np.isfinite(rho) and abs(rho - t) <= 1e-7 * max(
                    1, spacing / den * 1e9):
                self.lost = True
        if den <= 0 or 1e-15 * abs(self.fx) > 1e-6 * den:
            self.lost = True
        if self.lost:
            self.rec.outcome("threshold")
            return
        self.trace.append(round(float(rho), 4))
        if not rho >= 0.25:
            self.delta /= 4
            label = "shrink"
        elif rho > 0.75 and p["boundary"]:
            self.delta = min(2 * self.delta, self.bar)
            label = "grow"
        else:
            label = "keep"
        accept = rho > self.options.get("rho_prime", 0.1)
        if accept:
            self.x, self.fx = p["new"], value
        self.rec.outcome(f"{label}, {'accept' if accept else 'reject'}")


def unit(v):
    return v / np.linalg.norm(v)


def run_case(case, rec):
    inst = _insts()[case["world"]]
    start = [p for _, p in inst.points(generic=3)][-1]
    frames = {}
    for name in case["options"]:
        options = dict(OPTIONS[name])
        run = options.pop("run", {})
        label = f"{case['id']}/{name}"
        constructor = {k: v for k, v in options.items()
                       if k != "precondition"}

        def execute(chooser):
            m = Machine(rec, inst, case["pattern"], label, options, run,
                        chooser, frames)
            o = optimizers.TrustRegions(
                verbosity=0, max_iterations=case["length"], **constructor)
            np.random.seed(5)
            with np.errstate(all="ignore"):
                result = o.run(m.problem(), initial_point=geo.copy(start),
                               **run)
            return m, result

        for choices, (m, result) in core.explore(
                execute, deviations=case["deviations"],
                max_depth=case["depth"], limit=200000):
            rec.trace()
            rec.step(m.k)
            rec.state((label, choices))
            if m.lost:
                continue
            rec.check(
                opt.same_point(result.point, m.x) and result.cost == m.fx,
                f"{label}/result",
                lambda: f"answers {m.trace}: returned {result.point}, "
                f"{result.cost}; the last accepted iterate is {m.x}, {m.fx}",
                nontrivial=choices)
            rec.check(result.iterations == m.k, f"{label}/iterations",
                      lambda: f"{result.iterations} for {m.k} steps",
                      nontrivial=choices)
