"""Automatic gradients equal the true Euclidean gradient."""
import itertools

import numpy as np

from .. import diff

ID = "C17"
TASKS_PER_PROCESS = 1  # a process imports the packages of one backend
LEVEL = "model_checking"
RULE = (
    "state = (backend, argument layout, program = sum of terms of the "
    "grammar, calling style, memory layout of the arguments, point, history "
    "of evaluations); transitions = one evaluation of the generated gradient; "
    "every value is compared with the exact gradient in plain numpy, every "
    "array returned earlier is compared again at the end of the history"
)
ASSUMPTIONS = [
    "the hand-derived gradients of the terms in mc/diff.py are correct (they "
    "are compared with central differences in every run)",
    "double precision; costs that depend on at least one argument",
]


def cases(tier):
    return diff.cases(tier)


def reference(rec, case, program, args):
    """The exact gradient, confirmed by central differences."""
    want = program.grad(args)
    r = diff.rng("direction", program.specs)
    v = [diff.rnd(r, s, z) for s, z in program.specs]
    h = 1e-4
    rise = (program.value([a + h * e for a, e in zip(args, v)])
            - program.value([a - h * e for a, e in zip(args, v)])) / (2 * h)
    slope = sum(diff.re_dot(g, e) for g, e in zip(want, v))
    size = sum(np.linalg.norm(g) * np.linalg.norm(e) for g, e in zip(want, v))
    assert abs(rise - slope) <= 1e-4 * (1 + size), (
        "reference", program.name, rise, slope)
    return want


def run_case(case, rec):
    for label, specs, family in diff.family(case):
        run_layout(case, rec, label, specs, family)


def run_layout(case, rec, layout, specs, family):
    session = diff.Session(case["backend"], specs)
    deep = case["deep"]
    for index, program in enumerate(family):
        rec.trace()
        where = f"{case['backend']} {layout} {program.name}"
        kinds = ("generic", "zero", "large", "second") if deep or (
            index < 25) else ("generic",)
        pts = diff.points(specs, kinds)
        wants = [reference(rec, case, program, a) for _, a in pts]
        f = session.function(program)
        operator = f.get_gradient_operator()
        returned = []

        def evaluate(args, want, label, operator=operator):
            kept = [a.copy() for a in args]
            value = session.parts(operator(*args))
            rec.step()
            problem = diff.compare(value, want, args)
            rec.state((where, label))
            rec.check(problem is None, f"{case['backend']}/gradient",
                      lambda: f"{where} at {label}: {problem}",
                      nontrivial=(where, label))
            rec.check(all(np.array_equal(a, k) for a, k in zip(args, kept)),
                      f"{case['backend']}/arguments", lambda: f"{where} at "
                      f"{label}: modified its arguments",
                      nontrivial=(where, label))
            if problem is None:
                returned.append((label, value, [v.copy() for v in value]))
            return value

        for (label, args), want in zip(pts, wants):
            evaluate(args, want, label)
            cost = f(*args)
            true = program.value(args)
            rec.check(np.ndim(cost) == 0 and not np.iscomplexobj(
                np.asarray(cost)) and abs(float(cost) - true) <= 1e-9 * (
                    1 + abs(true)), f"{case['backend']}/cost",
                lambda: f"{where} at {label}: {cost} instead of {true}",
                nontrivial=(where, label))
        (label, args), want = pts[0], wants[0]
        value = evaluate(args, want, "again")
        if value is not None and returned and all(
                v.flags.writeable for v in value):
            returned.pop()
            for v in value:
                v[...] = 7.0  # the caller owns what it was given
            evaluate(args, want, "after-overwriting")
        if index % 3 == 0 and len(pts) > 1:
            # the caller reuses the arrays
            buffer = [a.copy() for a in args]
            evaluate(buffer, want, "before-reuse")
            for b, a in zip(buffer, pts[1][1]):
                b[...] = a
            evaluate(buffer, wants[1], "reused")
        if index % 4 == 0:
            g = session.function(program, "variadic")
            evaluate(args, want, "variadic", g.get_gradient_operator())
        if index % (1 if deep else 6) == 0:
            for kind in diff.MEMORY:
                evaluate([diff.memory(a, kind) for a in args], want, kind)
            problem = session.pymanopt.Problem(session.manifold, f)
            evaluate(args, want, "problem", lambda *a:
                     problem.euclidean_gradient(session.point(a)))
            if len(specs) > 1 and all(s == specs[0] for s in specs):
                shared = [args[0]] * len(specs)
                evaluate(shared, program.grad(shared), "same-array")
        if index < (6 if deep else 3):
            histories(case, rec, session, program, pts, wants, where)
        for label, value, kept in returned:
            rec.check(all(np.array_equal(v, k) for v, k in zip(value, kept)),
                      f"{case['backend']}/overwritten", lambda: f"{where}: "
                      f"the gradient returned at {label} changed later",
                      nontrivial=(where, label))
        rec.outcome((case["backend"], len(specs), len(program.used())))


def histories(case, rec, session, program, pts, wants, where):
    """Every order of up to three evaluations on a fresh function."""
    moves = ("cost0", "cost1", "grad0", "grad1", "hess0", "operator")
    direction = [0.5 * a + 1 for a in pts[0][1]]
    for word in itertools.product(moves, repeat=2):
        f = session.function(program)
        for move in word + ("grad0", "grad1"):
            i = int(move[-1]) if move[-1].isdigit() else 0
            args = pts[min(i, len(pts) - 1)][1]
            if move.startswith("cost"):
                f(*args)
            elif move.startswith("hess"):
                f.get_hessian_operator()(*args, *direction)
            else:
                operator = f.get_gradient_operator()
                if move == "operator":
                    continue
                value = session.parts(operator(*args))
                rec.step()
                problem = diff.compare(
                    value, wants[min(i, len(pts) - 1)], args)
                rec.check(problem is None, f"{case['backend']}/history",
                          lambda: f"{where} after {word}: {problem}",
                          nontrivial=(where, word, move))
        rec.state((where, word))
        rec.trace()
