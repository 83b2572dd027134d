"""Products act componentwise."""
import itertools

import numpy as np
import pymanopt.manifolds as pm

from .. import geo, zoo

ID = "C12"
LEVEL = "model_checking"
RULE = (
    "state = (ordered tuple of factors, point); transitions = every product "
    "operation, compared exactly with the factor operations on the components; "
    "all ordered pairs (thorough: triples) over the factor alphabet"
)
ASSUMPTIONS = geo.ASSUME


def pool():
    return [
        zoo._euclid(2), zoo._sphere(3), zoo._group(3), zoo._circle(2),
        zoo._grass(4, 2), zoo._positive(1, 2, 1, True),
        zoo._pd("SymmetricPositiveDefinite", 2),
        zoo._group(2, 2, "polar", True), zoo._stiefel(3, 2, 2),
        zoo.FixedRankInst(4, 3, 2), zoo._poincare(2), zoo._oblique(2, 2),
        zoo._psd(3, 2), zoo._ell(4, 2),
    ]


def cases(tier):
    n = len(pool())
    out = [{"id": f"single{i}", "first": [i], "rest": 0} for i in range(n)]
    out += [{"id": f"pairs{i}", "first": [i], "rest": 1} for i in range(n)]
    if tier == "thorough":
        out += [{"id": f"triples{i}.{j}", "first": [i, j], "rest": 1}
                for i in range(n) for j in range(n)]
    else:
        out += [{"id": f"triples{i}", "first": [i, (i + 5) % n], "rest": 1}
                for i in range(0, n, 3)]
    out.append({"id": "misuse", "first": [], "rest": 0})
    out += [{"id": f"siblings{i}", "first": [], "rest": 0, "index": i}
            for i in range(len(siblings()))]
    return out


def siblings():
    """Manifolds of equal names that differ in their options."""
    def sub(seed):
        q = zoo.orth(zoo.rnd(zoo.rng("siblings", seed), (4, 2)))
        return zoo.Inst(f"SphereSubspaceIntersection#{seed}",
                        lambda: pm.SphereSubspaceIntersection(q.copy()),
                        zoo.SphereS((4,), q @ q.T), second_order=True)

    return [
        lambda: [zoo._stiefel(4, 2), zoo._stiefel(4, 2, 1, "polar")],
        lambda: [zoo._group(3), zoo._group(3, 1, "polar")],
        lambda: [zoo._group(2, 2, "polar", True), zoo._group(2, 2, "qr", True)],
        lambda: [zoo._positive(1, 2), zoo._positive(1, 2, 1, True)],
        lambda: [sub(0), sub(1)],
        lambda: [zoo._stiefel(4, 2), zoo._grass(4, 2), zoo._euclid(4, 2)],
    ]


def coexist(index, rec):
    """Several products alive at once do not influence each other."""
    family = siblings()[index]()
    for order in itertools.permutations(range(len(family))):
        chosen = [[family[i], family[j]] for i in order for j in (i, order[0])]
        insts = [zoo.ProductInst([*c, zoo._euclid(2)]) for c in chosen]
        for inst in insts:
            inst.get()
        for inst in insts + insts[::-1]:
            compare(inst, rec)
    # the very same manifold object as several factors
    a = family[0]
    inst = zoo.ProductInst([a, zoo._euclid(2), a])
    inst.m = pm.Product([a.get(), pm.Euclidean(2), a.get()])
    compare(inst, rec)
    # the caller goes on using the list
    for change in (lambda given: given.append(pm.Sphere(3)),
                   lambda given: given.insert(0, pm.Sphere(3)),
                   lambda given: given.reverse(), lambda given: given.clear(),
                   lambda given: given.__setitem__(0, pm.Euclidean(3, 2))):
        given = [a.get(), pm.Euclidean(2)]
        inst = zoo.ProductInst([a, zoo._euclid(2)])
        inst.m = pm.Product(given)
        change(given)
        compare(inst, rec)


def run_case(case, rec):
    factors = pool()
    if case["id"] == "misuse":
        return nested(rec)
    if "index" in case:
        return coexist(case["index"], rec)
    for tail in itertools.product(range(len(factors)), repeat=case["rest"]):
        chosen = [factors[i] for i in case["first"] + list(tail)]
        inst = zoo.ProductInst(chosen)
        compare(inst, rec)


def same(a, b):
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(
            same(p, q) for p, q in zip(a, b))
    return np.shape(a) == np.shape(b) and zoo.gap(
        a, b) <= 1e-12 * zoo.nrm(b)


def parts(args, i):
    return [a[i] for a in args]


def compare(inst, rec):
    m, n = inst.get(), inst.name
    for label, x, y, v, w, e, eh in geo.settings(inst, 1):
        rec.state((n, label))
        rec.trace()
        for op, args, kind in geo.operations(inst, x, y, v, w, e, eh):
            got = getattr(m, op)(*args)
            rec.step()
            each = []
            for i, f in enumerate(inst.factors):
                if op == "embedding" and f.kind == "fixedrank":
                    each.append(None)
                    continue
                each.append(getattr(f.get(), op)(*parts(args, i)))
            if op == "inner_product":
                want = sum(each)
                if abs(got - want) <= 1e-12 * sum(map(abs, each)):
                    got = want
            elif op in ("norm", "dist"):
                want = np.sqrt(sum(d * d for d in each))
            elif op == "embedding":
                want = [g if p is None else p for g, p in zip(got, each)]
            else:
                want = each
            rec.check(same(got, want), f"{n}/{op}",
                      lambda: f"{label}: product gives {got!r}, factors give "
                      f"{want!r}", nontrivial=label)
            if kind in ("tx", "ty"):
                # usable in arithmetic
                try:
                    two = got + got
                    ok = same(two, [p + p for p in want])
                except TypeError:
                    ok = False
                rec.check(ok, f"{n}/{op}/arithmetic",
                          lambda: f"{label}: {type(got)}", nontrivial=label)
        for s in (1e-3, 1e-7, 1e-10, 1e-13):
            z = m.retraction(x, s * w)
            for op in ("dist", "log", "pair_mean", "transport"):
                if op in inst.lacks:
                    continue
                args = (x, z) + (() if op != "transport" else (v,))
                each = [getattr(f.get(), op)(*parts(args, i))
                        for i, f in enumerate(inst.factors)]
                got = getattr(m, op)(*args)
                rec.step()
                want = np.sqrt(sum(d * d for d in each)) if op == "dist" \
                    else each
                rec.check(same(got, want), f"{n}/{op}",
                          lambda: f"{label}: points {s:g} apart: product "
                          f"gives {got!r}, factors give {want!r}",
                          nontrivial=(label, s))
        a, b = v, w
        k = np.float64(0.25)
        table = [
            ("add", lambda: a + b, [p + q for p, q in zip(a, b)]),
            ("sub", lambda: a - b, [p - q for p, q in zip(a, b)]),
            ("mul", lambda: a * 0.25, [p * 0.25 for p in a]),
            ("rmul", lambda: 0.25 * a, [p * 0.25 for p in a]),
            ("npmul", lambda: k * a, [p * 0.25 for p in a]),
            ("npmulr", lambda: a * k, [p * 0.25 for p in a]),
            ("div", lambda: a / 4, [p / 4 for p in a]),
            ("npdiv", lambda: a / np.float64(4), [p / 4 for p in a]),
            ("neg", lambda: -a, [-p for p in a]),
            ("addlist", lambda: a + list(b), [p + q for p, q in zip(a, b)]),
            ("chain", lambda: -(2 * a - b / 2) + a,
             [-(2 * p - q / 2) + p for p, q in zip(a, b)]),
        ]
        before = geo.copy(list(a)), geo.copy(list(b))
        for name, fn, want in table:
            got = fn()
            rec.step()
            rec.check(same(list(got), want) and type(got) is type(a),
                      f"{n}/tangent/{name}", lambda: f"{label}: {got!r} for "
                      f"{want!r}", nontrivial=label)
        rec.check(same(list(a), before[0]) and same(list(b), before[1]),
                  f"{n}/tangent/mutation", lambda: label, nontrivial=label)
        for bad in (list(a)[:-1], list(a) + [a[0]]):
            for sign in (1, -1):
                try:
                    if sign == 1:
                        a + bad
                    else:
                        a - bad
                    ok = False
                except ValueError:
                    ok = True
                rec.check(ok, f"{n}/tangent/length", lambda: label,
                          nontrivial=(label, len(bad), sign))
        for seed in (0, 1):
            np.random.seed(seed)
            p = m.random_point()
            rec.check(inst.on_manifold(p), f"{n}/random_point",
                      lambda: f"{p!r}", nontrivial=seed)
            t = m.random_tangent_vector(x)
            rec.check(inst.is_tangent(x, t)
                      and abs(inst.norm(x, t) - 1) < 1e-6,
                      f"{n}/random_tangent_vector", lambda: f"{t!r}",
                      nontrivial=seed)
            rec.check(all(zoo.nrm(q) > 0 for q in t),
                      f"{n}/random_tangent_vector/all", lambda: f"{t!r}",
                      nontrivial=seed)
            rec.step(2)
        rec.check(m.dim == sum(f.get().dim for f in inst.factors),
                  f"{n}/dim", lambda: f"{m.dim}")
    for missing in ("log", "dist", "pair_mean", "exp"):
        if missing in inst.lacks and missing not in set().union(
                *[f.lacks for f in inst.factors]):
            rec.fail(f"{n}/model", missing)
        if missing in inst.lacks:
            try:
                out = getattr(m, missing)(x, y)
                ok = False
            except NotImplementedError:
                ok = True
            rec.check(ok or missing == "exp", f"{n}/{missing}/unavailable",
                      lambda: "a factor does not implement this",
                      nontrivial=missing)
    rec.sample({"instance": n, "operations": [
        o[0] for o in geo.operations(inst, x, y, v, w, e, eh)]})


def nested(rec):
    a, b = pm.Euclidean(2), pm.Sphere(3)
    for build in (lambda: pm.Product([pm.Product([a, b]), b]),
                  lambda: pm.Product([a, pm.Product([b])]),
                  lambda: pm.Product([a, b, pm.Product([a, b])])):
        rec.step()
        rec.trace()
        rec.state(build)
        try:
            build()
            ok = False
        except ValueError:
            ok = True
        rec.check(ok, "misuse/nested", "nested product accepted",
                  nontrivial=str(build))
    rec.sample("nested products")
