"""Automatic Hessian-vector products equal the true ones."""
import itertools
import zlib

import numpy as np

from .. import diff

ID = "C18"
TASKS_PER_PROCESS = 1  # a process imports the packages of one backend
LEVEL = "model_checking"
RULE = (
    "state = (backend, argument layout, program = sum of terms of the "
    "grammar, calling style, memory layout, point, direction, history of "
    "evaluations); transitions = one Hessian-vector product of the generated "
    "operator; every value is compared with the exact one in plain numpy, for "
    "every vector of a real basis of the argument space and for generic "
    "directions"
)
ASSUMPTIONS = [
    "the hand-derived Hessians of the terms in mc/diff.py are correct (they "
    "are compared with central differences of the gradients in every run)",
    "double precision; costs that depend on at least one argument",
]


def cases(tier):
    return diff.cases(tier)


def reference(program, args, vectors):
    want = program.hess(args, vectors)
    h = 1e-4
    up = program.grad([a + h * e for a, e in zip(args, vectors)])
    down = program.grad([a - h * e for a, e in zip(args, vectors)])
    size = 1 + sum(np.linalg.norm(w) for w in want)
    for u, d, w in zip(up, down, want):
        assert np.linalg.norm((u - d) / (2 * h) - w) <= 1e-4 * size * (
            1 + sum(np.linalg.norm(e) for e in vectors) ** 3), (
                "reference", program.name)
    return want


def basis(specs):
    """A real basis of the argument space."""
    for i, (shape, cplx) in enumerate(specs):
        for j in range(int(np.prod(shape))):
            for unit in (1.0, 1j) if cplx else (1.0,):
                out = [np.zeros(s, dtype=complex if z else float)
                       for s, z in specs]
                out[i].reshape(-1)[j] = unit
                yield f"basis{i}.{j}.{unit}", out


def directions(specs, whole):
    r = diff.rng("directions", specs)
    generic = [diff.rnd(r, s, z) for s, z in specs]
    yield "generic", generic
    if whole:
        yield "zero", [0 * g for g in generic]
        yield "long", [-3.0 * g for g in generic]
        yield from basis(specs)


def run_case(case, rec):
    for label, specs, family in diff.family(case):
        run_layout(case, rec, label, specs, family)


def run_layout(case, rec, layout, specs, family):
    session = diff.Session(case["backend"], specs)
    deep = case["deep"]
    slow = case["backend"] in ("jax", "tensorflow") and not deep
    for index, program in enumerate(family):
        rec.trace()
        where = f"{case['backend']} {layout} {program.name}"
        single = len(program.terms) == 1
        kinds = ("generic", "zero", "large") if deep or (
            single and not slow) else ("generic", "zero")
        pts = diff.points(specs, kinds)
        order = zlib.crc32(program.name.encode())
        f = session.function(program)
        operator = f.get_hessian_operator()
        returned = []

        def evaluate(args, vectors, want, label, operator=operator):
            kept = [a.copy() for a in args + vectors]
            value = session.parts(operator(*args, *vectors))
            rec.step()
            problem = diff.compare(value, want, args)
            rec.state((where, label))
            rec.check(problem is None, f"{case['backend']}/product",
                      lambda: f"{where} at {label}: {problem}",
                      nontrivial=(where, label))
            rec.check(all(np.array_equal(a, k) for a, k in zip(
                args + vectors, kept)), f"{case['backend']}/arguments",
                lambda: f"{where} at {label}: modified its arguments",
                nontrivial=(where, label))
            if problem is None:
                returned.append((label, value, [v.copy() for v in value]))
            return value

        for label, args in pts:
            whole = single and (not slow or label == "generic"
                                and order % 4 == 0)
            for name, vectors in directions(specs, whole):
                evaluate(args, vectors, reference(program, args, vectors),
                         (label, name))
        label, args = pts[0]
        _, vectors = next(directions(specs, False))
        want = reference(program, args, vectors)
        value = evaluate(args, vectors, want, "again")
        if value is not None and returned and all(
                v.flags.writeable for v in value):
            returned.pop()
            for v in value:
                v[...] = 7.0
            evaluate(args, vectors, want, "after-overwriting")
        if index % 3 == 0:
            # the caller reuses the arrays
            buffer = [a.copy() for a in args + vectors]
            k = len(args)
            evaluate(buffer[:k], buffer[k:], want, "before-reuse")
            new = pts[1][1] + [0.5 * a for a in args]
            for b, a in zip(buffer, new):
                b[...] = a
            evaluate(buffer[:k], buffer[k:], reference(
                program, new[:k], new[k:]), "reused")
        if index % 4 == 0:
            g = session.function(program, "variadic")
            evaluate(args, vectors, want, "variadic",
                     g.get_hessian_operator())
        if index % (1 if deep else 6) == 0:
            for kind in diff.MEMORY:
                evaluate([diff.memory(a, kind) for a in args],
                         [diff.memory(v, kind) for v in vectors], want, kind)
            evaluate(args, args, reference(program, args, args), "same-array")
            problem = session.pymanopt.Problem(session.manifold, f)
            evaluate(args, vectors, want, "problem", lambda *a:
                     problem.euclidean_hessian(
                         session.point(list(a[:len(specs)])),
                         session.point(list(a[len(specs):]))))
        if index < (6 if deep else 2) and (not slow or index == order % 2):
            histories(case, rec, session, program, pts, vectors, where)
        for label, value, kept in returned:
            rec.check(all(np.array_equal(v, k) for v, k in zip(value, kept)),
                      f"{case['backend']}/overwritten", lambda: f"{where}: "
                      f"the product returned at {label} changed later",
                      nontrivial=(where, label))
        rec.outcome((case["backend"], len(specs), len(program.used())))


def histories(case, rec, session, program, pts, vectors, where):
    """Every order of up to three evaluations on a fresh function."""
    wants = [program.hess(args, vectors) for _, args in pts]
    moves = ("cost0", "grad0", "grad1", "hess0", "hess1", "operator")
    slow = case["backend"] in ("jax", "tensorflow") and not case["deep"]
    for n, word in enumerate(itertools.product(moves, repeat=2)):
        if slow and n % 4:
            continue
        f = session.function(program)
        for move in word + ("hess0", "hess1"):
            i = int(move[-1]) if move[-1].isdigit() else 0
            args = pts[i][1]
            if move.startswith("cost"):
                f(*args)
            elif move.startswith("grad"):
                f.get_gradient_operator()(*args)
            else:
                operator = f.get_hessian_operator()
                if move == "operator":
                    continue
                value = session.parts(operator(*args, *vectors))
                rec.step()
                problem = diff.compare(value, wants[i], args)
                rec.check(problem is None, f"{case['backend']}/history",
                          lambda: f"{where} after {word}: {problem}",
                          nontrivial=(where, word, move))
        rec.state((where, word))
        rec.trace()
