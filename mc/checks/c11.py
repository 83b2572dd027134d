"""Metadata of manifolds over a grid of constructor arguments."""
import numbers

import numpy as np
import pymanopt.manifolds as pm

from .. import geo, zoo

ID = "C11"
LEVEL = "model_checking"
RULE = (
    "state = constructor argument tuple from the grid; transitions = "
    "construction, random_point and metadata reads; dim is compared with the "
    "rank of the linearised constraints at several points"
)
ASSUMPTIONS = geo.ASSUME


def grid(tier):
    top = 6 if tier == "thorough" else 4
    ks = (1, 2, 3, 4) if tier == "thorough" else (1, 2, 3)
    out = []
    for a in range(1, top + 1):
        out += [zoo._euclid(a), zoo._ceuclid(a), zoo._circle(a)]
        if a > 1:
            out.append(zoo._sphere(a))
        for k in ks:
            out += [zoo._symm(a, k), zoo._poincare(a, k)]
            if a > 1:
                out += [zoo._skew(a, k), zoo._group(a, k),
                        zoo._group(a, k, "polar")]
            out += [zoo._group(a, k, "qr", True)]
            if a <= 4:
                out += [zoo._pd("SymmetricPositiveDefinite", a, k),
                        zoo._pd("HermitianPositiveDefinite", a, k)]
                if a > 1:
                    out.append(zoo._pd(
                        "SpecialHermitianPositiveDefinite", a, k))
        for b in range(1, top + 1):
            out += [zoo._euclid(a, b), zoo._ceuclid(a, b)]
            if a * b > 1:
                out.append(zoo._sphere(a, b))
            if a > 1:
                out.append(zoo._oblique(a, b))
            for k in ks:
                out.append(zoo._positive(a, b, k))
                if b <= a and a > 1:
                    out.append(zoo._stiefel(a, b, k))
                    if b < a:
                        out += [zoo._grass(a, b, k), zoo._grass(
                            a, b, k, True)]
            if b <= a:
                out += [zoo._psd(a, b), zoo._psd(a, b, True)]
            if 2 <= b <= a and a * (b - 1) > b * (b - 1) // 2:
                out.append(zoo._ell(a, b))
            for r in range(1, min(a, b) + 1):
                out.append(zoo.FixedRankInst(a, b, r))
    # manifolds of dimension zero
    for k in ks:
        out += [zoo._skew(1, k), zoo._group(1, k), zoo._group(1, k, "polar"),
                zoo._pd("SpecialHermitianPositiveDefinite", 1, k),
                zoo._stiefel(1, 1, k)]
        for a in range(1, top + 1):
            out += [zoo._grass(a, a, k), zoo._grass(a, a, k, True)]
    for a in range(1, top + 1):
        out.append(zoo._oblique(1, a))
    out += [zoo._sphere(1), zoo._sphere(1, 1), zoo._ell(2, 2)]
    for a in (3, 4, 5):
        for r in range(1, a):
            if r > 1:
                out.append(zoo._sub(a, r))
            if a - r > 1:
                out.append(zoo._sub(a, r, True))
    out += [zoo._euclid(2, 3, 2), zoo._ceuclid(2, 1, 3), zoo._sphere(2, 2, 3)]
    return out


_GRID = {}


def table(tier):
    if tier not in _GRID:
        seen = {}
        for inst in grid(tier):
            seen.setdefault(inst.name, inst)
        _GRID[tier] = seen
    return _GRID[tier]


def cases(tier):
    groups = {}
    for name in table(tier):
        groups.setdefault(name.split("(")[0], []).append(name)
    out = [{"id": g, "names": v, "tier": tier} for g, v in groups.items()]
    out.append({"id": "Product", "names": None, "tier": tier})
    return out


def run_case(case, rec):
    if case["names"] is None:
        return products(case, rec)
    for name in case["names"]:
        inspect(table(case["tier"])[name], rec)
    rec.sample({"constructed": case["names"][:5]})


def inspect(inst, rec):
    m, n = inst.get(), inst.name
    cls = n.split("(")[0]
    rec.state(n)
    rec.trace()
    rec.step(4)
    dim = m.dim
    pts = inst.points(generic=1, special=False)
    np.random.seed(3)
    pts.append(("random", m.random_point()))
    rec.check(isinstance(dim, numbers.Integral) and not isinstance(dim, bool),
              f"{n}/dim/integer", lambda: f"{dim!r}", nontrivial=n)
    for label, x in pts:
        true = len(inst.basis(x))
        rec.check(true == inst.dim(), f"{n}/model",
                  lambda: f"{label}: reference {inst.dim()} basis {true}")
        # the key separates one systematic excess from any other wrong value
        kn = inst.k * (inst.shape or (0,))[-1] if inst.kind == "array" else 0
        key = f"{cls}/dim-exceeds-by-k*n" if kn and dim - true == kn \
            else f"{n}/dim"
        rec.check(dim == true, key, lambda: f"{n}: dim is {dim} but "
                  f"the tangent space has dimension {true}", nontrivial=n)
    layout = m.point_layout
    want = inst.layout
    rec.check(layout == want, f"{n}/point_layout", lambda: f"{layout!r}",
              nontrivial=n)
    arrays = 1 if isinstance(x, np.ndarray) else len(x)
    rec.check(m.num_values == arrays, f"{n}/num_values",
              lambda: f"{m.num_values!r} for points of {arrays} arrays",
              nontrivial=n)
    try:
        scale = m.typical_dist
    except NotImplementedError:
        scale = None
    if inst.dim() > 0 and scale is not None:
        rec.check(geo.scalar(scale) and scale > 0, f"{n}/typical_dist",
                  lambda: f"{scale!r}", nontrivial=n)
    rec.check(isinstance(str(m), str) and str(m) != "", f"{n}/str",
              lambda: repr(str(m)), nontrivial=n)
    rec.outcome(f"dim{min(dim, 40)}")


def products(case, rec):
    pool = [zoo._euclid(2), zoo._sphere(3), zoo.FixedRankInst(4, 3, 2),
            zoo._group(3), zoo._grass(4, 2, 2), zoo._oblique(2, 3),
            zoo.FixedRankInst(3, 5, 1), zoo._poincare(2, 2)]
    import itertools

    for size in (1, 2, 3):
        for chosen in itertools.product(pool, repeat=size):
            inst = zoo.ProductInst(list(chosen))
            m = inst.get()
            n = inst.name
            rec.state(n)
            rec.step(4)
            rec.trace()
            rec.check(
                isinstance(m.dim, numbers.Integral)
                and m.dim == sum(f.dim() for f in chosen),
                f"{n}/dim", lambda: f"{m.dim!r}", nontrivial=n)
            layout = [f.layout for f in chosen]
            rec.check(list(m.point_layout) == layout, f"{n}/point_layout",
                      lambda: f"{m.point_layout!r} for {layout}",
                      nontrivial=n)
            rec.check(m.num_values == sum(layout), f"{n}/num_values",
                      lambda: f"{m.num_values}", nontrivial=n)
            scales = [f.get().typical_dist for f in chosen]
            rec.check(abs(m.typical_dist - np.sqrt(sum(
                s**2 for s in scales))) <= 1e-12 * m.typical_dist,
                f"{n}/typical_dist", lambda: f"{m.typical_dist}",
                nontrivial=n)
    rec.sample({"products": "all tuples up to length 3 of 8 factors"})
