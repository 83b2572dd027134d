"""Nelder-Mead makes the documented simplex moves."""
import numpy as np

from .. import core, geo, opt, zoo

ID = "C28"
LEVEL = "model_checking"
RULE = (
    "state = (manifold, coefficients, sequence of answered cost values "
    "positioned against the simplex: below, equal to, between and above its "
    "best, second worst and worst value, infinite); transitions = one cost "
    "evaluation of the real optimizer; every evaluated point is compared with "
    "the one the documented moves require, ties being nondeterministic"
)
ASSUMPTIONS = opt.ASSUME + [
    "the centroid is the one the optimizer reflects about, required to be the "
    "Karcher mean of the better points to 2% of the size of the simplex or 1e-4 (it "
    "is computed by a truncated iteration)",
    "cost values are not NaN",
]

COEFFICIENTS = {
    "default": {}, "odd": {"reflection": 0.8, "expansion": 1.6,
                           "contraction": 0.3},
    "far": {"reflection": 1.3, "expansion": 2.5, "contraction": 0.7},
}
WORLDS = ("line", "plane", "space", "sphere", "product1", "oblique",
          "hyperbolic", "positive")


def _insts():
    out = {n: opt.inst(n) for n in WORLDS if n not in ("space", "positive")}
    out["space"] = zoo._euclid(3)
    out["positive"] = zoo._positive(1, 2, 1, True)
    return out


def cases(tier):
    deep = tier == "thorough"
    out = []
    for name, i in _insts().items():
        if i.lacks & {"log", "dist", "pair_mean"}:
            continue
        for c in COEFFICIENTS:
            if c != "default" and not deep and name not in (
                    "line", "plane", "sphere"):
                continue
            for first in range(len(STARTS)):
                flat = name in ("line", "plane", "space")
                out.append({
                    "id": f"{name}/{c}/{STARTS[first]}", "world": name,
                    "coefficients": c, "first": STARTS[first],
                    "deviations": 3 if deep and name in ("line", "plane")
                    else 2 if flat and c == "default" or deep else 1,
                    "depth": 7 if deep else 6, "length": 6})
    return sorted(out, key=lambda c: (-c["deviations"], c["world"] != "space"))


STARTS = ("true", "equal", "pairs", "infinite", "reversed")


class Machine:
    """The moves the next evaluation may be; resolves ties by looking."""

    def __init__(self, rec, case, inst, start, chooser):
        self.rec, self.case, self.inst = rec, case, inst
        self.label = case["id"]
        self.chooser = chooser
        self.m = inst.get()
        self.coef = {"reflection": 1, "expansion": 2, "contraction": 0.5}
        self.coef.update(COEFFICIENTS[case["coefficients"]])
        self.size = len(start)
        self.points, self.costs = [], []
        self.phase = "init"
        self.memo = {}
        self.word = []
        self.moves = []
        self.iterations = 0
        self.lost = False
        self.retractions = []
        self.source = opt.distance_cost(inst)
        self.best = None

    # answers -------------------------------------------------------------
    def cost(self, x):
        k = opt.key(x)
        self.rec.step()
        self.locate(x)
        if k not in self.memo:
            self.memo[k] = float(self.answer(x))
        value = self.memo[k]
        self.word.append(value)
        self.advance(x, value)
        return value

    def answer(self, x):
        true = self.source.cost(x)
        i = len(self.points)
        if self.phase == "init":
            first = self.case["first"]
            if first == "equal":
                return 2.0
            if first == "pairs":
                return 2.0 + i // 2
            if first == "infinite":
                return np.inf if i else 2.0
            if first == "reversed":
                return 10.0 - i
            return true
        order = sorted(self.costs)
        best, second, worst = order[0], order[-2], order[-1]
        options = [best - 1, best, mid(best, second), second,
                   mid(second, worst), worst, above(worst), np.inf]
        if self.phase in ("expand", "outside", "inside"):
            ref = self.costr if self.phase != "inside" else worst
            options = [ref - 0.5, ref, above(ref)]
        if self.phase == "shrink":
            options = [best - 1, best, above(worst)]
        seen, unique = {true}, []
        for o in options:
            if o not in seen and not np.isnan(o):
                seen.add(o)
                unique.append(o)
        c = self.chooser.choose(1 + len(unique), self.phase)
        return unique[c - 1] if c else true

    # reference -----------------------------------------------------------
    def how(self):
        return f"answers {self.word}, moves {self.moves}"

    def check(self, ok, what, message):
        self.rec.check(ok, f"{self.label}/{what}",
                       lambda: f"{self.how()}: {message()}",
                       nontrivial=(what, tuple(self.word)))
        if not ok:
            self.lost = True

    def same(self, a, b):
        return opt.same_point(a, b, 1e-7)

    def locate(self, x):
        """Is x the point the current phase asks for?"""
        if self.lost:
            return
        self.rec.evaluations += 1
        self.check(self.inst.on_manifold(x, 1e-7), "on-manifold",
                   lambda: f"evaluated {x}")
        if self.phase == "init" or self.lost:
            return
        if self.phase == "reflect":
            return self.reflection(x)
        if self.phase == "shrink":
            left = [(b, [p for p in todo if not self.same(p, x)], todo)
                    for b, todo in self.shrinks]
            kept = [(b, new) for b, new, todo in left if len(new) < len(todo)]
            self.check(bool(kept), "shrink", lambda: f"evaluated {x}, "
                       f"expected one of {self.shrinks}")
            self.shrinks = kept
            return
        factor = {"expand": -self.coef["expansion"],
                  "outside": -self.coef["contraction"],
                  "inside": self.coef["contraction"]}[self.phase]
        want = self.m.retraction(self.xbar, factor * self.vec)
        self.check(self.same(x, want), self.phase,
                   lambda: f"evaluated {x}, expected {want}")

    def reflection(self, x):
        base = None
        for point, eta, new in reversed(self.retractions):
            if opt.key(new) == opt.key(x):
                base = point, eta
                break
        if base is None:
            self.lost = True
            return
        xbar, eta = base
        worst = max(self.costs)
        tied = [i for i, c in enumerate(self.costs) if c == worst]
        matches = []
        for i in tied:
            vec = self.m.log(xbar, self.points[i])
            want = -self.coef["reflection"] * vec
            others = self.points[:i] + self.points[i + 1:]
            off, spread = self.centre(xbar, others)
            spread = max(spread, self.inst.norm(xbar, vec))
            good = zoo.gap(zoo.flat(eta), zoo.flat(want)) <= 1e-7 * max(
                1e-3, zoo.nrm(want))
            if good and off <= 0.02 * spread + 1e-4:
                matches.append((off, i, vec))
        self.check(
            bool(matches), "reflection",
            lambda: f"step {eta} from {xbar}, simplex "
            f"{list(zip(self.points, self.costs))}, distances from the "
            f"centroids {[self.centre(xbar, self.points[:i] + self.points[i+1:]) for i in tied]}")
        if self.lost:
            return
        _, self.w, self.vec = min(matches, key=lambda t: t[0])
        self.xbar = xbar
        if len(matches) > 1:
            # coinciding points: which one is dropped makes no difference
            pts = [self.points[i] for _, i, _ in matches]
            if not all(self.same(pts[0], p) for p in pts):
                self.lost = True

    def centre(self, xbar, others):
        logs = [self.m.log(xbar, p) for p in others]
        mean = logs[0]
        for v in logs[1:]:
            mean = mean + v
        spread = max(self.inst.norm(xbar, v) for v in logs)
        return self.inst.norm(xbar, mean) / len(logs), spread

    def advance(self, x, value):
        if self.phase == "init":
            self.points.append(geo.copy(x))
            self.costs.append(value)
            if len(self.points) == self.size:
                self.begin()
            return
        if self.lost:
            return
        order = sorted(self.costs)
        best, second, worst = order[0], order[-2], order[-1]
        if self.phase == "reflect":
            self.costr, self.xr = value, geo.copy(x)
            if best <= value < second:
                self.replace("reflection", x, value)
            elif value < best:
                self.phase = "expand"
            elif value < worst:
                self.phase = "outside"
            else:
                self.phase = "inside"
        elif self.phase == "expand":
            if value < self.costr:
                self.replace("expansion", x, value)
            else:
                self.replace("failed expansion", self.xr, self.costr)
        elif self.phase in ("outside", "inside"):
            bar = self.costr if self.phase == "outside" else worst
            if value <= bar:
                self.replace(f"{self.phase} contraction", x, value)
            else:
                self.phase = "shrink"
                self.shrunk = []
                tied = [i for i, c in enumerate(self.costs) if c == best]
                self.shrinks = [
                    (b, [self.m.pair_mean(self.points[b], p)
                         for j, p in enumerate(self.points) if j != b])
                    for b in tied]
        else:
            self.shrunk.append((geo.copy(x), value))
            if len(self.shrunk) == self.size - 1:
                b = self.shrinks[0][0]
                if len(self.shrinks) > 1:
                    self.lost = True  # which best point was kept is unknown
                kept = self.points[b], self.costs[b]
                self.points = [kept[0]] + [p for p, _ in self.shrunk]
                self.costs = [kept[1]] + [c for _, c in self.shrunk]
                self.done("shrink")

    def replace(self, move, x, value):
        self.points[self.w] = geo.copy(x)
        self.costs[self.w] = value
        self.done(move)

    def done(self, move):
        self.moves.append(move)
        self.rec.outcome(move)
        self.begin()

    def begin(self):
        self.phase = "reflect"
        self.iterations += 1
        best = min(self.costs)
        if self.best is not None:
            self.check(best <= self.best, "monotone",
                       lambda: f"best cost rose from {self.best} to {best}")
        self.best = best


def mid(a, b):
    if np.isinf(b):
        return a + 1.0 if np.isfinite(a) else a
    return (a + b) / 2


def above(a):
    return a + 1.0 if np.isfinite(a) else a


def simplex(inst, name):
    start = [p for _, p in inst.points(generic=3)][-1]
    out = [start]
    tv = inst.tangents(start, generic=int(inst.get().dim) + 2, maxbasis=0)
    for i in range(int(inst.get().dim)):
        out.append(inst.get().retraction(
            start, (0.3 + 0.05 * i) * tv[i % len(tv)][1]))
    return out


def run_case(case, rec):
    inst = _insts()[case["world"]]
    start = simplex(inst, case["world"])
    options = COEFFICIENTS[case["coefficients"]]

    def execute(chooser):
        world = opt.World(inst, hessian=False)
        machine = Machine(rec, case, inst, start, chooser)
        world.cost = machine.cost
        original = world.manifold.retraction

        def retraction(x, v):
            new = original(x, v)
            machine.retractions.append((x, v, new))
            return new

        world.manifold.retraction = retraction
        o = opt.build("nm", max_iterations=case["length"], log_verbosity=1,
                      max_cost_evaluations=10**6, **options)
        out = opt.execute(world, o, start=[geo.copy(p) for p in start])
        return machine, out

    for choices, (machine, out) in core.explore(
            execute, deviations=case["deviations"], max_depth=case["depth"],
            limit=200000):
        rec.trace()
        rec.state((case["id"], choices))
        label, r = case["id"], out.result
        if machine.lost:
            rec.outcome("undecided")
            continue
        rec.check(machine.phase == "reflect", f"{label}/complete",
                  lambda: f"{machine.how()}: ended in phase {machine.phase}",
                  nontrivial=choices)
        rec.check(r.iterations == machine.iterations, f"{label}/iterations",
                  lambda: f"{machine.how()}: {r.iterations}",
                  nontrivial=choices)
        rec.check(r.cost == min(machine.costs) and any(
            machine.same(r.point, p) and c == r.cost
            for p, c in zip(machine.points, machine.costs)),
            f"{label}/result",
            lambda: f"{machine.how()}: returned {r.point}, {r.cost}; simplex "
            f"{list(zip(machine.points, machine.costs))}", nontrivial=choices)
