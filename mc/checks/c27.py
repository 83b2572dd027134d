"""Conjugate gradient uses the documented direction updates."""
import itertools

import numpy as np

import pymanopt
from pymanopt import optimizers

from .. import core, geo, opt, zoo

ID = "C27"
LEVEL = "model_checking"
RULE = (
    "state = (beta rule, restart threshold, manifold, preconditioner, "
    "sequence of step lengths and gradients answered by the environment); "
    "transitions = one iteration of the real optimizer with an enumerated "
    "line search; the direction, cost and slope handed to the line search "
    "are compared with the documented formula evaluated at the same state"
)
ASSUMPTIONS = opt.ASSUME + [
    "decisions closer than 1e-9 (relative) to a threshold end the comparison",
    "Liu-Storey's denominator may use the direction before or after transport",
]

WORLDS = ("plane", "sphere", "stiefel", "pd", "product",
          "grassmann", "positive", "circle")
STEPS = (0.3, 1.0, 0.02, 0.0)
GRADIENTS = ("generic", "transported", "opposite", "tiny", "along",
             "against", "conjugate", "zero")


def _insts():
    out = {n: opt.inst(n) for n in WORLDS if n != "positive"}
    out["positive"] = zoo._positive(1, 2, 1, True)
    return out


def cases(tier):
    deep = tier == "thorough"
    out = []
    for world, rule, orth, pre in itertools.product(
            WORLDS, opt.RULES, (None, 0.1, 0.6), (False, True)):
        two = deep or world in ("plane", "sphere") and orth is None
        out.append({
            "id": f"{world}/{rule}/{orth}/{'pre' if pre else 'plain'}",
            "world": world, "rule": rule, "orth": orth, "pre": pre,
            "deviations": 3 if deep and world in ("plane",) else
            2 if two else 1, "length": 5})
    return sorted(out, key=lambda c: -c["deviations"])


class Searcher:
    def __init__(self, owner):
        self.owner = owner

    def __deepcopy__(self, memo):
        return self

    def search(self, objective, manifold, x, d, f0, df0):
        return self.owner.search(objective, x, d, f0, df0)


class Monitor:
    def __init__(self, rec, case, chooser, inst, frames):
        self.rec, self.case, self.chooser = rec, case, chooser
        self.label = case["id"]
        self.inst, self.frames = inst, frames
        self.m = inst.make()
        d = int(self.m.dim)
        r = zoo.rng("c27", d)
        a = r.normal(size=(d, d))
        self.precon = np.eye(d) * 0.7 + 0.3 * a @ a.T / d
        self.generic = [unit(r.normal(size=d)) * s
                        for s in (1.0, 0.6, 1.7, 0.3, 0.9, 1.2)]
        self.answers = {}
        self.costs = {}
        self.previous = None
        self.lost = self.vanished = False
        self.word = []
        self.count = 0

    # environment
    def frame(self, x):
        k = opt.key(x)
        if k not in self.frames:
            basis = self.inst.basis(x)
            gram = np.array([[self.inst.inner(x, a, b) for b in basis]
                             for a in basis])
            w = np.linalg.inv(np.linalg.cholesky(gram))
            self.frames[k] = [self.inst.unbasis(row, basis) for row in w]
        return self.frames[k]

    def vector(self, x, c):
        return self.inst.unbasis(c, self.frame(x))

    def coordinates(self, x, v):
        return np.array([self.inst.inner(x, b, v) for b in self.frame(x)])

    def p(self, x, v):
        if not self.case["pre"]:
            return v
        return self.vector(x, self.precon @ self.coordinates(x, v))

    def gradient(self, x):
        k = opt.key(x)
        if k not in self.answers:
            self.answers[k] = self.answer(x)
        return self.answers[k]

    def answer(self, x):
        n = len(self.answers)
        plain = self.vector(x, self.generic[n % len(self.generic)])
        if n == 0:
            return plain
        kind = GRADIENTS[self.chooser.choose(len(GRADIENTS), "gradient")]
        self.word.append(kind)
        old = self.previous
        tg = self.m.transport(old["x"], x, old["g"])
        td = self.m.transport(old["x"], x, old["d"])
        if kind == "transported":
            return tg
        if kind == "opposite":
            return -1.0 * tg
        if kind == "tiny":
            return 1e-3 * plain
        if kind == "zero":
            self.vanished = True  # the run ends here
            return 0.0 * plain
        if kind == "along":
            return 10.0 * td
        if kind == "against":
            return -0.5 * td
        if kind == "conjugate":
            s = self.inst.inner(x, plain, td) / self.inst.inner(x, td, td)
            return plain - (0.999 * s) * td
        return plain

    def cost(self, x):
        k = opt.key(x)
        if k not in self.costs:
            self.costs[k] = 5.0 - len(self.costs)
        return self.costs[k]

    def problem(self):
        lay = self.m.point_layout
        dec = pymanopt.function.numpy(self.m)

        @dec
        def cost(*args):
            return self.cost(opt.nest(args, lay))

        @dec
        def gradient(*args):
            out = opt.unnest(self.gradient(opt.nest(args, lay)), lay)
            return out[0] if lay == 1 else list(out)

        return pymanopt.Problem(
            self.m, cost, riemannian_gradient=gradient,
            preconditioner=self.p if self.case["pre"] else None)

    # line search
    def search(self, objective, x, d, f0, df0):
        self.judge(x, d, f0, df0)
        c = self.chooser.choose(len(STEPS), "step")
        self.word.append(STEPS[c])
        size = self.inst.norm(x, d)
        self.previous = {"x": geo.copy(x), "g": self.gradient(x),
                         "d": geo.copy(d)}
        if STEPS[c] == 0.0:
            return 0.0, x
        new = self.m.retraction(x, (STEPS[c] / size) * d)
        objective(new)
        return STEPS[c], new

    # oracle
    def judge(self, x, d, f0, df0):
        rec, label = self.rec, self.label
        inner = self.inst.inner
        g = self.gradient(x)
        pg = self.p(x, g)
        self.count += 1
        how = f"direction {self.count} after {self.word}"
        rec.step()
        slope = inner(x, g, d)
        size = np.sqrt(abs(inner(x, g, g) * inner(x, d, d))) + 1e-300
        rec.check(f0 == self.cost(x), f"{label}/cost",
                  lambda: f"{how}: cost {f0} instead of {self.cost(x)}",
                  nontrivial=how)
        rec.check(abs(df0 - slope) <= 1e-9 * size, f"{label}/slope",
                  lambda: f"{how}: slope {df0} instead of {slope}",
                  nontrivial=how)
        negative = self.gap(d, -1.0 * pg) <= 1e-9 * self.size(pg)
        rec.check(slope < 1e-11 * size or negative, f"{label}/descent",
                  lambda: f"{how}: slope {slope} along {d}, gradient {g}",
                  nontrivial=how)
        if self.lost:
            return
        wanted = self.wanted(x, g, pg)
        if wanted is None:
            self.lost = True
            rec.outcome("threshold")
            return
        best = min(self.gap(d, w) / max(self.size(w), self.size(pg))
                   for _, w in wanted)
        kind = min(wanted, key=lambda kw: self.gap(d, kw[1]))[0]
        rec.outcome(kind)
        rec.check(best <= 1e-7, f"{label}/direction",
                  lambda: f"{how}: {self.case['rule']} gives {wanted}, the "
                  f"line search was given {d}", nontrivial=how)

    @staticmethod
    def gap(a, b):
        return zoo.gap(zoo.flat(a), zoo.flat(b))

    @staticmethod
    def size(a):
        return zoo.nrm(a)

    def wanted(self, x, g, pg):
        """Acceptable directions at x, None next to a threshold."""
        steepest = ("steepest", -1.0 * pg)
        if self.previous is None:
            return [steepest]
        old = self.previous
        inner, m = self.inst.inner, self.m
        ox, og, od = old["x"], old["g"], old["d"]
        gpg = inner(x, g, pg)
        tg = m.transport(ox, x, og)
        td = m.transport(ox, x, od)
        ratio = abs(inner(x, tg, pg) / gpg)
        orth = self.case["orth"]
        if orth is not None:
            if abs(ratio - orth) <= 1e-9:
                return None
            if ratio >= orth:
                return [("restart", -1.0 * pg)]
        opg = self.p(ox, og)
        ogpg = inner(ox, og, opg)
        y = g - tg
        rule = self.case["rule"]
        num = inner(x, pg, y)
        den = inner(x, y, td)
        scale = self.inst.norm(x, y) * self.inst.norm(x, td)
        flat = den != 0 and abs(den) <= 1e-8 * scale
        exact = self.gap(g, tg) == 0
        if exact:
            den = num = 0.0
        elif self.gap(g, tg) <= 1e-9 * self.size(g) or den == 0 and scale:
            return None
        if rule == "FletcherReeves":
            betas = [gpg / ogpg]
        elif rule == "PolakRibiere":
            betas = [max(0.0, num / ogpg)]
        elif rule == "HestenesStiefel":
            if flat:
                return None
            betas = [1.0] if den == 0 else [max(0.0, num / den)]
        elif rule == "HagerZhang":
            if flat:
                return None
            if den == 0:
                betas = [1.0]
            else:
                py = pg - m.transport(ox, x, opg)
                beta = (num - 2 * inner(x, y, py) * inner(x, td, g)
                        / den) / den
                floor = -1 / (self.inst.norm(x, td) * min(
                    0.01, self.inst.norm(ox, og)))
                betas = [max(beta, floor)]
        else:
            dens = [-inner(ox, og, od), -inner(ox, og, td),
                    -inner(x, tg, td)]
            least = self.inst.norm(ox, og) * self.inst.norm(ox, od)
            if any(abs(q) <= 1e-8 * least for q in dens):
                return None
            betas = [max(0.0, min(num / q, gpg / q)) for q in dens if q]
        out = []
        for beta in betas:
            d = -1.0 * pg + beta * td
            s = inner(x, g, d)
            size = np.sqrt(inner(x, g, g)) * (
                np.sqrt(inner(x, pg, pg)) + abs(beta) * self.inst.norm(x, td))
            if s < 0 or abs(s) <= 1e-11 * size:
                out.append((rule if beta else "zero beta", d))
            if s >= 0 or abs(s) <= 1e-11 * size:
                out.append(("reset", -1.0 * pg))
        return out


def unit(v):
    return v / np.linalg.norm(v)


def run_case(case, rec):
    inst = _insts()[case["world"]]
    start = [p for _, p in inst.points(generic=3)][-1]
    frames = {}

    def execute(chooser):
        monitor = Monitor(rec, case, chooser, inst, frames)
        options = {} if case["orth"] is None else {"orth_value": case["orth"]}
        o = optimizers.ConjugateGradient(
            beta_rule=case["rule"], verbosity=0, min_step_size=0.0, min_gradient_norm=0.0,
            max_iterations=case["length"] + 1,
            line_searcher=Searcher(monitor), **options)
        o.run(monitor.problem(), initial_point=geo.copy(start))
        return monitor

    for choices, monitor in core.explore(
            execute, deviations=case["deviations"], limit=200000):
        rec.trace()
        rec.state((case["id"], choices))
        rec.check(monitor.count == case["length"] or monitor.vanished,
                  f"{case['id']}/searches",
                  lambda: f"{monitor.count} line searches")
