"""Particle swarm follows its velocity rule and keeps its bests."""
import itertools

import numpy as np
from scipy import optimize

from .. import core, geo, opt, zoo

ID = "C29"
LEVEL = "model_checking"
RULE = (
    "state = (manifold, weights, initial population, sequence of answered "
    "costs and random numbers); transitions = one cost evaluation or random "
    "draw of the real optimizer; every evaluated position is compared with "
    "the documented velocity rule for some unused draw of the iteration, and "
    "every log entry and the result with the best evaluation so far"
)
ASSUMPTIONS = opt.ASSUME + [
    "random weights are drawn through numpy's global uniform generators "
    "(drawn otherwise, they are only required to lie in their interval)",
    "among equal costs any of the positions may count as the best",
    "cost values are not NaN",
]

WORLDS = ("plane", "line", "sphere", "product", "product1", "circle",
          "grassmann", "oblique", "positive")
WEIGHTS = {
    "default": {},
    "odd": {"nostalgia": 0.5, "social": 2.0},
    "selfish": {"nostalgia": 1.0, "social": 0.0},
    "herd": {"nostalgia": 0.0, "social": 1.0},
}
POPULATIONS = ("given", "forced", "random", "default")
DRAWS = (0.0, 0.9999, 0.5)


def _insts():
    out = {n: opt.inst(n) for n in WORLDS if n != "positive"}
    out["positive"] = zoo._positive(1, 2, 1, True)
    return out


def cases(tier):
    deep = tier == "thorough"
    out = []
    for name, i in _insts().items():
        if i.lacks & {"log", "transport"}:
            continue
        for weights, pop in itertools.product(WEIGHTS, POPULATIONS):
            flat = name in ("plane", "line")
            main = weights == "default" and pop == "given"
            if pop == "default" and weights != "default":
                continue
            out.append({
                "id": f"{name}/{weights}/{pop}", "world": name,
                "weights": weights, "population": pop,
                "deviations": (3 if flat and main else 2) if deep else
                2 if main and name == "sphere" else 1,
                "length": 4 if deep else 3,
                "what": "default" if pop == "default" else "full"})
    return sorted(out, key=lambda c: -c["deviations"])


class Draws:
    """Replaces numpy's global uniform generators."""

    NAMES = ("uniform", "rand", "random", "random_sample", "ranf", "sample")

    def __init__(self, machine):
        self.machine, self.count = machine, 0

    def one(self):
        base = (0.137 + 0.6180339887498949 * self.count) % 1.0
        self.count += 1
        c = self.machine.chooser.choose(1 + len(DRAWS), "draw")
        value = DRAWS[c - 1] if c else base
        self.machine.draw(value)
        return value

    def many(self, size):
        if size is None or size == ():
            return self.one()
        out = np.empty(size)
        for i in range(out.size):
            out.flat[i] = self.one()
        return out

    def __enter__(self):
        self.saved = {n: getattr(np.random, n) for n in self.NAMES
                      if hasattr(np.random, n)}

        def uniform(low=0.0, high=1.0, size=None):
            return low + (high - low) * self.many(size)

        def rand(*shape):
            return self.many(shape)

        for n in self.saved:
            setattr(np.random, n, uniform if n == "uniform" else
                    rand if n == "rand" else
                    lambda size=None: self.many(size))
        return self

    def __exit__(self, *_):
        for n, f in self.saved.items():
            setattr(np.random, n, f)


class Machine:
    def __init__(self, rec, case, chooser, inst):
        self.rec, self.case, self.chooser = rec, case, chooser
        self.label, self.inst = case["id"], inst
        self.m = inst.get()
        self.weights = {"nostalgia": 1.4, "social": 1.4}
        self.weights.update(WEIGHTS[case["weights"]])
        self.source = opt.distance_cost(inst)
        self.memo, self.word = {}, []
        self.history = []        # per particle: [(position, cost)]
        self.velocity = []
        self.place = []          # current position
        self.before = []
        self.moved = set()
        self.drawn, self.moves = [], []
        self.pending = []        # (particle, displacement to explain)
        self.iteration = 0
        self.best = np.inf
        self.bests = []
        self.size = None

    def draw(self, value):
        self.drawn.append(value)
        self.word.append(("draw", round(value, 4)))

    def how(self):
        return f"{self.word}"

    def check(self, ok, what, message):
        self.rec.check(ok, f"{self.label}/{what}",
                       lambda: f"{self.how()}: {message()}",
                       nontrivial=(what, tuple(self.word)))

    # environment
    def cost(self, x):
        self.rec.step()
        self.rec.evaluations += 1
        self.check(self.inst.on_manifold(x, 1e-7), "on-manifold",
                   lambda: f"evaluated {x}")
        i = self.identify(x)
        k = opt.key(x)
        if k not in self.memo:
            self.memo[k] = float(self.answer(x, i))
        value = self.memo[k]
        self.word.append(value)
        self.record(i, x, value)
        return value

    def answer(self, x, i):
        true = self.source.cost(x)
        if not self.bests and not self.history:
            return true
        own = min([c for _, c in self.history[i]], default=np.inf) \
            if i < len(self.history) else np.inf
        options = []
        for o in (self.best - 1.0, self.best, own, mid(self.best, own),
                  own + 1.0, np.inf):
            if not np.isnan(o) and o not in options and o != true:
                options.append(o)
        c = self.chooser.choose(1 + len(options), "cost")
        return options[c - 1] if c else true

    # reference
    def identify(self, x):
        """The particle being evaluated (initially: the next one)."""
        if self.size is None or len(self.history) < self.size:
            return len(self.history)
        k = opt.key(x)
        reached = [n for n, move in enumerate(self.moves)
                   if opt.key(move[2]) == k]
        self.check(bool(reached), "moves", lambda: f"{x} was not reached by "
                   "retracting from a particle")
        if not reached:
            raise Lost()
        # Several particles may have been moved before the first evaluation,
        # and may have moved to the same position.
        for n in reached:
            base = self.moves[n]
            found = [j for j in range(self.size) if j not in self.moved and
                     opt.key(self.place[j]) == opt.key(base[0])]
            if found:
                del self.moves[n]
                break
        self.check(bool(found), "moves", lambda: f"{x} was reached from "
                   f"{base[0]}, which is no unmoved particle of {self.place}")
        if not found:
            raise Lost()
        i = found[0]
        self.moved.add(i)
        self.pending.append((i, base[1]))
        return i

    def record(self, i, x, value):
        x = geo.copy(x)
        self.best = min(self.best, value)
        if i == len(self.history):
            self.history.append([(x, value)])
            self.place.append(x)
            self.before.append(x)
            if len(self.history) == self.size:
                self.settle()
            return
        self.history[i].append((x, value))
        self.next[i] = x
        if len(self.moved) == self.size:
            self.explain()
            self.settle()

    def settle(self):
        """End of an iteration."""
        if self.moved:
            self.before = self.place
            self.place = [self.next[i] for i in range(self.size)]
            new = dict(self.pending)
            self.velocity = [new[i] for i in range(self.size)]
        self.moved, self.pending, self.next = set(), [], {}
        self.drawn = []
        self.bests.append(self.best)
        self.iteration += 1

    def initial_velocities(self, drawn):
        """Random tangent vectors drawn at the initial positions."""
        out = []
        for x in self.place:
            found = [v for p, v in drawn if opt.key(p) == opt.key(x)]
            out.append(found[0] if found else None)
        self.velocity = out

    def explain(self):
        w = 0.4 + 0.5 * (1 - self.iteration / self.length)
        past = [h[:-1] for h in self.history]
        everyone = [pc for h in past for pc in h]
        best = min(c for _, c in everyone)
        leaders = distinct([p for p, c in everyone if c == best])
        choices = []
        for i, v in self.pending:
            x = self.place[i]
            own = min(c for _, c in past[i])
            selves = distinct([p for p, c in past[i] if c == own])
            if self.velocity[i] is None:
                choices.append(None)
                continue
            inertia = self.m.transport(self.before[i], x, self.velocity[i])
            rest = zoo.flat(v) - w * zoo.flat(inertia)
            tol = 1e-7 * max(1e-3, zoo.nrm(v) + zoo.nrm(inertia))
            choices.append(self.fits(x, rest, selves, leaders, tol))
        bad = [i for (i, _), c in zip(self.pending, choices) if c == []]
        self.check(not bad, "velocity", lambda: (
            f"iteration {self.iteration}: particles {bad} moved by "
            f"{[v for i, v in self.pending if i in bad]} from "
            f"{[self.place[i] for i in bad]}, draws {self.drawn}, bests "
            f"{leaders}"))
        if bad:
            raise Lost()
        if self.drawn:
            self.check(assign([c for c in choices if c is not None]),
                       "independent", lambda: f"iteration {self.iteration}: "
                       f"draws {self.drawn} explain the moves only if shared")

    def fits(self, x, rest, selves, leaders, tol):
        """Pairs of draw indices that explain the displacement."""
        out = set()
        n, s = self.weights["nostalgia"], self.weights["social"]
        for p, q in itertools.product(selves, leaders):
            a = n * zoo.flat(self.m.log(x, p))
            b = s * zoo.flat(self.m.log(x, q))
            if not self.drawn:
                m = real(np.stack([a, b], axis=-1))
                fit = optimize.lsq_linear(m, real(rest), (0, 1 + 1e-12))
                if np.sqrt(2 * fit.cost) <= 10 * tol:
                    out.add((None, None))
                continue
            r = np.array(self.drawn)
            left = rest[None] - r[:, None] * a[None]
            miss = np.linalg.norm(
                left[:, None] - (r[:, None] * b[None])[None], axis=-1)
            for i, j in np.argwhere(miss <= tol):
                if i != j:
                    out.add((i, j))
        return sorted(out) if self.drawn else list(out)


class Lost(Exception):
    pass


def assign(choices, used=frozenset()):
    """Is there a choice for everyone that shares no draw?"""
    if not choices:
        return True
    for i, j in choices[0]:
        if i in used or j in used:
            continue
        if assign(choices[1:], used | {i, j}):
            return True
    return False


def distinct(points):
    out = {}
    for p in points:
        out.setdefault(opt.key(p), p)
    return list(out.values())


def real(a):
    a = np.asarray(a)
    return np.concatenate([a.real, a.imag]) if np.iscomplexobj(a) else a


def mid(a, b):
    return (a + b) / 2 if np.isfinite(b) and np.isfinite(a) else np.nan


def swarm(inst, count):
    start = [p for _, p in inst.points(generic=3)][-1]
    out = [start]
    tv = inst.tangents(start, generic=count, maxbasis=0)
    for i in range(count - 1):
        out.append(inst.get().retraction(
            start, (0.4 + 0.1 * i) * tv[i % len(tv)][1]))
    return out


def run_case(case, rec):
    inst = _insts()[case["world"]]
    dim = int(inst.get().dim)
    options = dict(WEIGHTS[case["weights"]])
    pop = case["population"]
    size = {"given": 3, "forced": 4, "random": 3,
            "default": min(40, 10 * dim)}[pop]
    if pop != "default":
        options["population_size"] = 3
    start = swarm(inst, size) if pop in ("given", "forced") else None

    def execute(chooser):
        world = opt.World(inst, hessian=False)
        machine = Machine(rec, case, chooser, inst)
        machine.size, machine.length = size, case["length"]
        world.cost = machine.cost
        velocities = []
        retract, tangent = (world.manifold.retraction,
                            world.manifold.random_tangent_vector)

        def retraction(x, v):
            if machine.velocity == []:
                machine.initial_velocities(velocities)
            new = retract(x, v)
            machine.moves.append((geo.copy(x), geo.copy(v), new))
            return new

        def random_tangent_vector(x):
            v = tangent(x)
            velocities.append((geo.copy(x), geo.copy(v)))
            return v

        world.manifold.retraction = retraction
        world.manifold.random_tangent_vector = random_tangent_vector
        o = opt.build("pso", max_iterations=case["length"], log_verbosity=1,
                      max_cost_evaluations=10**6, **_population(options))
        given = None if start is None else [geo.copy(p) for p in start]
        out = None
        try:
            with Draws(machine):
                np.random.seed(5)
                out = opt.execute(world, o, start=given)
        except Lost:
            pass
        return machine, out

    for choices, (machine, out) in core.explore(
            execute,
            deviations=case["deviations"] if pop != "default" else 0,
            limit=400000):
        rec.trace()
        rec.state((case["id"], choices))
        if out is None:
            continue
        finish(rec, case, machine, out, start, choices)


def _population(options):
    # CONFIGS["pso"] sets a population size; None means the default one
    options = dict(options)
    options.setdefault("population_size", None)
    return options


def finish(rec, case, machine, out, start, choices):
    label, r = case["id"], out.result
    if start is not None:
        rec.check(all(opt.same_point(h[0][0], p)
                      for h, p in zip(machine.history, start)),
                  f"{label}/initial", lambda: f"{machine.how()}: started from "
                  f"{[h[0][0] for h in machine.history]}", nontrivial=choices)
    rec.check(len(machine.history) == machine.size and not machine.moved
              and machine.iteration == case["length"], f"{label}/population",
              lambda: f"{machine.how()}: {len(machine.history)} particles, "
              f"{machine.iteration} generations", nontrivial=choices)
    everyone = [pc for h in machine.history for pc in h]
    rec.check(r.cost == machine.best and any(
        c == r.cost and opt.same_point(r.point, p) for p, c in everyone),
        f"{label}/result",
        lambda: f"{machine.how()}: returned {r.cost} at {r.point}, the best "
        f"evaluation is {machine.best}", nontrivial=choices)
    logged = list(out.log["cost"])
    rec.check(logged == machine.bests[:len(logged)] and
              len(logged) == case["length"], f"{label}/best",
              lambda: f"{machine.how()}: best costs {logged}, bests of the "
              f"evaluations {machine.bests}", nontrivial=choices)
    for p, c in zip(out.log["point"], logged):
        rec.check(any(d == c and opt.same_point(p, q) for q, d in everyone),
                  f"{label}/best-point",
                  lambda: f"{machine.how()}: logged {p} with cost {c}",
                  nontrivial=choices)
    rec.outcome("improved" if len(set(logged)) > 1 else "stuck")
