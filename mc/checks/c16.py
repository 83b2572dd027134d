"""Purity of the geometric operations."""
import numpy as np

from .. import geo, zoo

ID = "C16"
LEVEL = "model_checking"
RULE = (
    "state = (instance, operation history of length 2); transitions = all "
    "ordered pairs of operations on the same arguments and all memory-layout "
    "variants of every argument; compared bit for bit (layouts: to 1e-10)"
)
ASSUMPTIONS = geo.ASSUME


def cases(tier):
    return geo.cases(tier)


def frozen(value):
    """Copy whose arrays are read-only."""
    def freeze(a):
        a = np.array(a)
        a.setflags(write=False)
        return a

    return remap(value, freeze)


def remap(value, fn):
    if isinstance(value, np.ndarray):
        return fn(value)
    if isinstance(value, tuple) and hasattr(value, "_fields"):
        return type(value)(*[remap(v, fn) for v in value])
    if isinstance(value, (list, tuple)):
        return type(value)([remap(v, fn) for v in value])
    return value


def fortran(a):
    return np.asfortranarray(np.array(a))


def strided(a):
    big = np.full(tuple(2 * s for s in a.shape), np.nan, dtype=a.dtype)
    view = big[tuple(slice(None, None, 2) for _ in a.shape)]
    view[...] = a
    return view


def reverse(a):
    sl = tuple(slice(None, None, -1) for _ in a.shape)
    return np.ascontiguousarray(a[sl])[sl]


def swapped(a):
    return np.moveaxis(np.ascontiguousarray(np.moveaxis(a, 0, -1)), -1, 0)


LAYOUTS = [("read-only", None), ("fortran", fortran), ("strided", strided),
           ("reversed", reverse), ("axes-swapped", swapped)]


def identical(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and isinstance(
            b, (list, tuple)) and len(a) == len(b) and all(
                identical(p, q) for p, q in zip(a, b))
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def run_case(case, rec):
    inst = zoo.by_name(case["instance"])
    m, n = inst.get(), inst.name
    deep = case["tier"] == "thorough"
    previous = None
    for label, x, y, v, w, e, eh in geo.settings(inst, 2 if deep else 1):
        ops = geo.operations(inst, x, y, v, w, e, eh)
        ops.append(("dist-self", None, "s"))
        if "dist" in inst.lacks:
            ops.pop()
        else:
            ops[-1] = ("dist", (x, x), "s")
        if "log" not in inst.lacks:
            ops.append(("log", (x, x), "tx"))
        ops.append(("retraction", (x, 0 * v), "p"))
        if "exp" not in inst.lacks:
            ops.append(("exp", (x, 0 * v), "p"))
        base = []
        for op, args, kind in ops:
            private = geo.copy(args)
            state = np.random.get_state()
            got = getattr(m, op)(*args)
            rec.step()
            after = np.random.get_state()
            rec.check(identical(list(args), list(private)),
                      f"{n}/{op}/mutates-argument",
                      lambda: f"{label}: arguments changed", nontrivial=label)
            # scipy's matrix logarithm draws numbers for its norm estimate
            rec.check(
                op in ("log", "pair_mean") or state[2] == after[2] and np.array_equal(state[1], after[1]),
                f"{n}/{op}/consumes-randomness", lambda: label,
                nontrivial=label)
            base.append((op, args, private, geo.copy(got)))
            rec.check(zoo.finite(got), f"{n}/{op}/finite",
                      lambda: f"{label}: {got!r}", nontrivial=label)
        # every ordered pair of operations
        for i, (opa, argsa, pa, wa) in enumerate(base):
            held = getattr(m, opa)(*argsa)
            snapshot = geo.copy(held)
            for opb, argsb, pb, wb in base:
                rec.state((n, label, i, opb))
                rec.trace()
                got = getattr(m, opb)(*argsb)
                rec.step()
                rec.check(
                    identical(got, wb), f"{n}/{opb}/history",
                    lambda: f"{label}: different after {opa}",
                    nontrivial=(label, opa))
                rec.check(identical(held, snapshot),
                          f"{n}/{opa}/result-changed",
                          lambda: f"{label}: result changed during {opb}",
                          nontrivial=(label, opb))
            rec.check(identical(list(argsa), list(pa)),
                      f"{n}/{opa}/mutates-argument", lambda: label,
                      nontrivial=(label, "pairs"))
        # results handed on as arguments of further operations
        for opa, argsa, pa, wa in base:
            if opa not in ("retraction", "exp", "pair_mean"):
                continue
            z = getattr(m, opa)(*argsa)
            snapshot = geo.copy(z)
            tv = inst.tangents(z, generic=1, maxbasis=1)
            z2 = inst.get().retraction(geo.copy(z), 0.3 * tv[0][1])
            fixed = geo.copy(z)
            names = geo.operations(inst, fixed, z2, 0.4 * tv[-1][1],
                                   tv[0][1], e, eh)
            fresh = [getattr(m, opb)(*geo.copy(argsb))
                     for opb, argsb, kind in names]
            for j, (opb, _, kind) in enumerate(names):
                if opb == "zero_vector":
                    continue
                # the very object that was returned, nothing in between
                z = getattr(m, opa)(*argsa)
                argsb = geo.operations(inst, z, z2, 0.4 * tv[-1][1],
                                       tv[0][1], e, eh)[j][1]
                for _ in range(2):
                    rec.state((n, label, opa, "then", opb))
                    rec.trace()
                    got = getattr(m, opb)(*argsb)
                    rec.step()
                    rec.check(
                        identical(z, snapshot), f"{n}/{opa}/result-changed",
                        lambda: f"{label}: the point returned by {opa} "
                        f"changed when it was handed to {opb}",
                        nontrivial=(label, opb, "chain"))
                    rec.check(
                        identical(got, fresh[j]), f"{n}/{opb}/history",
                        lambda: f"{label}: different at the very point "
                        f"returned by {opa}",
                        nontrivial=(label, opa, "chain"))
        # the caller reuses the arrays of the arguments
        for (op, args, private, want), (_, old, _, _) in zip(
                base, previous or base[:0]):
            buffer = geo.copy(old)
            getattr(m, op)(*buffer)
            geo.overwrite(buffer, args)
            got = getattr(m, op)(*buffer)
            rec.step(2)
            rec.check(identical(got, want), f"{n}/{op}/reused-arrays",
                      lambda: f"{label}: stale result after the arguments "
                      "were changed in place", nontrivial=label)
        previous = base
        # memory layouts, one argument at a time and all together
        for op, args, private, want in base:
            scale = max(1, zoo.nrm(want), *(zoo.nrm(a) for a in args))
            for name, fn in LAYOUTS:
                for which in list(range(len(args))) + [None]:
                    trial = [
                        (frozen(a) if fn is None else remap(a, fn))
                        if which in (None, j) else geo.copy(a)
                        for j, a in enumerate(args)]
                    got = getattr(m, op)(*trial)
                    rec.step()
                    same = np.shape(zoo.flat(got)) == np.shape(
                        zoo.flat(want)) and zoo.gap(got, want) <= (
                            1e-7 if op in ("dist", "log") else 1e-9) * scale
                    if not same and op in ("retraction", "exp"):
                        same = inst.same(got, want)
                    rec.check(
                        same, f"{n}/{op}/layout",
                        lambda: f"{label}: {name} argument {which} gives "
                        f"{got!r} instead of {want!r}",
                        nontrivial=(label, name, which))
                    rec.check(identical(trial, list(private)),
                              f"{n}/{op}/mutates-argument",
                              lambda: f"{label} {name}",
                              nontrivial=(label, name, which))
    # random operations depend on numpy's seed and on nothing else
    if inst.dim() > 0:
        for seed in (0, 7):
            runs = []
            for _ in range(2):
                np.random.seed(seed)
                p = m.random_point()
                t = m.random_tangent_vector(x)
                q = m.random_point()
                runs.append((p, t, q))
                rec.step(3)
                m.retraction(x, v)
            rec.check(all(identical(a, b) for a, b in zip(*runs)),
                      f"{n}/random/reproducible", lambda: f"seed {seed}",
                      nontrivial=seed)
            p, t, q = runs[0]
            rec.check(not identical(p, q), f"{n}/random/varies",
                      lambda: f"seed {seed}: two draws are equal",
                      nontrivial=seed)
        before = geo.copy(x)
        m.random_tangent_vector(x)
        rec.check(identical(before, geo.copy(x)),
                  f"{n}/random_tangent_vector/mutates", lambda: "")
    rec.sample({"instance": n, "operations": [b[0] for b in base]})
