"""Stacked manifolds act slicewise."""
import itertools

import numpy as np

from .. import calculus, geo, zoo

ID = "C13"
LEVEL = "model_checking"
RULE = (
    "state = tuple of slices drawn from the single-copy point alphabet (all "
    "tuples for k=2, all cyclic and all repeated combinations for k=3,4); "
    "transitions = every stacked operation compared with the single-copy "
    "operation on each slice; sizes include k equal to a matrix size"
)
ASSUMPTIONS = geo.ASSUME


def families(tier):
    """name -> (factory of k, slice sizes)"""
    out = {
        "Symmetric": [lambda k, n=n: zoo._symm(n, k) for n in (2, 3)],
        "SkewSymmetric": [lambda k, n=n: zoo._skew(n, k) for n in (2, 3)],
        "StiefelQR": [lambda k, a=a, b=b: zoo._stiefel(a, b, k)
                      for a, b in ((3, 2), (4, 2), (2, 2), (3, 3))],
        "StiefelPolar": [lambda k, a=a, b=b: zoo._stiefel(a, b, k, "polar")
                         for a, b in ((3, 2), (4, 2), (3, 3))],
        "Grassmann": [lambda k, a=a, b=b: zoo._grass(a, b, k)
                      for a, b in ((3, 2), (4, 2), (2, 1))],
        "ComplexGrassmann": [
            lambda k, a=a, b=b: zoo._grass(a, b, k, True)
            for a, b in ((3, 2), (4, 2), (2, 1))],
        "SOQR": [lambda k, n=n: zoo._group(n, k) for n in (2, 3)],
        "SOPolar": [lambda k, n=n: zoo._group(n, k, "polar") for n in (2, 3)],
        "UQR": [lambda k, n=n: zoo._group(n, k, "qr", True)
                for n in (1, 2, 3)],
        "UPolar": [lambda k, n=n: zoo._group(n, k, "polar", True)
                   for n in (2, 3)],
        "Positive": [lambda k, a=a, b=b: zoo._positive(a, b, k)
                     for a, b in ((2, 3), (2, 2), (3, 1))],
        "PositiveParallel": [
            lambda k, a=a, b=b: zoo._positive(a, b, k, True)
            for a, b in ((2, 3), (2, 2), (1, 3))],
        "SPD": [lambda k, n=n: zoo._pd("SymmetricPositiveDefinite", n, k)
                for n in (2, 3)],
        "HPD": [lambda k, n=n: zoo._pd("HermitianPositiveDefinite", n, k)
                for n in (2, 3)],
        "SHPD": [lambda k, n=n: zoo._pd(
            "SpecialHermitianPositiveDefinite", n, k) for n in (2, 3)],
        "Poincare": [lambda k, n=n: zoo._poincare(n, k) for n in (1, 2, 3)],
    }
    return out


def cases(tier):
    ks = (2, 3, 4) if tier == "thorough" else (2, 3)
    return [{"id": f"{name}#{i}/k={k}", "family": name, "index": i, "k": k,
             "tier": tier}
            for name, makers in families(tier).items()
            for i in range(len(makers)) for k in ks]


def run_case(case, rec):
    maker = families(case["tier"])[case["family"]][case["index"]]
    k = case["k"]
    one, many = maker(1), maker(k)
    m1, mk = one.get(), many.get()
    n = many.name
    deep = case["tier"] == "thorough"
    cost = [calculus.Invariant((n, i), one.sl.shape[0], one.cplx)
            if calculus.quotient(one)
            else calculus.Ambient((n, i), one.shape, one.cplx)
            for i in range(2)]
    alphabet = []
    for label, x in one.points(generic=3):
        tv = one.tangents(x, generic=2, maxbasis=1)
        if not tv:
            continue
        zero = ("rest", 0 * tv[0][1])
        for j, (vl, v) in enumerate((tv[-1], tv[-2], zero)):
            c = cost[j % 2]
            s = (0.8, 2.5, 0.0)[j]
            if case["family"] == "Poincare":
                s = (0.8, 1.5, 0.0)[j]
            v = s * v
            w = tv[0][1]
            # in resting slices the two points coincide
            y = one.exp(x, 0.4 * tv[-2][1]) if j < 2 else geo.copy(x)
            e = c.grad(x)
            alphabet.append((f"{label}:{vl}", x, y, v, w, e, c.hess(
                x, one.embed(x, v))))
    pairs = list(itertools.product(range(len(alphabet)), repeat=2))
    if k == 2:
        combos = pairs
    else:
        combos = [tuple((i + j * d) % len(alphabet) for j in range(k))
                  for i in range(len(alphabet))
                  for d in range(len(alphabet))]
        if not deep and len(combos) > 80:
            combos = combos[::1 + len(combos) // 80]
    for combo in combos:
        slices = [alphabet[i] for i in combo]
        labels = [s[0] for s in slices]
        rec.state((n, tuple(labels)))
        rec.trace()
        cols = [np.stack([s[j] for s in slices]) for j in range(1, 7)]
        if "hessian" in many.lacks:
            cols[5] = None
        for op, args, kind in geo.operations(many, *cols):
            if op == "projection":
                args = (cols[0], cols[4])
            got = getattr(mk, op)(*args)
            rec.step()
            each = [getattr(m1, op)(*[a[i] for a in args])
                    for i in range(k)]
            rec.step(k)
            if op == "inner_product":
                want = sum(each)
                ok = geo.scalar(got)
            elif kind == "s":
                want = np.sqrt(sum(d * d for d in each))
                ok = geo.scalar(got)
            else:
                want = np.stack(each)
                ok = isinstance(got, np.ndarray) and got.shape == want.shape
            if ok and op in ("exp", "retraction") and calculus.quotient(one):
                got, want = many.invariant(got), many.invariant(want)
            ok = ok and zoo.gap(got, want) <= 1e-9 * max(
                1, zoo.nrm(want), *(zoo.nrm(a) for a in args))
            if not ok and op in ("dist", "log") and kind != "s":
                ok = False
            rec.check(ok, f"{n}/{op}",
                      lambda: f"slices {labels}: stacked {got!r}, slicewise "
                      f"{want!r}", nontrivial=tuple(labels))
    rec.check(mk.dim == k * m1.dim, f"{n}/dim",
              lambda: f"{mk.dim} vs {k}*{m1.dim}")
    # random points and vectors vary from slice to slice
    for seed in range(4):
        np.random.seed(seed)
        x = mk.random_point()
        rec.step(2)
        if rec.check(many.on_manifold(x), f"{n}/random_point",
                     lambda: f"{x!r}", nontrivial=seed) and m1.dim > 0:
            rec.check(zoo.gap(x[0], x[1]) > 1e-6, f"{n}/random_point/distinct",
                      lambda: f"{x!r}", nontrivial=seed)
            v = mk.random_tangent_vector(x)
            rec.check(
                many.is_tangent(x, v) and abs(many.norm(x, v) - 1) < 1e-6
                and all(zoo.nrm(s) > 1e-6 for s in v)
                and zoo.gap(v[0], v[1]) > 1e-6,
                f"{n}/random_tangent_vector", lambda: f"{v!r}",
                nontrivial=seed)
    rec.sample({"instance": n, "slices": labels})
