"""Vector transport."""
import numpy as np

from .. import geo, zoo
from ..geo import lin
from .c05 import inside

ID = "C08"
LEVEL = "model_checking"
RULE = (
    "state = ordered pair of points of the alphabet (including coincident and "
    "nearby ones); transitions = transport calls on the whole reference "
    "tangent basis and on combinations, so that the linear map between the "
    "two tangent spaces is determined"
)
ASSUMPTIONS = geo.ASSUME


def cases(tier):
    return geo.cases(tier, lacks=("transport",))


def kind(inst):
    if inst.kind == "product":
        return {kind(f) for f in inst.factors}
    return inst.transport


def run_case(case, rec):
    inst = zoo.by_name(case["instance"])
    m, n = inst.get(), inst.name
    deep = case["tier"] == "thorough"
    pts = inst.points(generic=4 if deep else 3)
    # rounding puts unit vectors on either side of one, and so on
    for lx, x in inst.points(generic=40, special=False) + inst.extremes():
        for lv, v in inst.tangents(x, generic=1, maxbasis=0):
            got = m.transport(x, geo.copy(x), v)
            rec.step()
            rec.check(
                inst.vshape_ok(got) and zoo.gap(got, v)
                <= 1e-9 * zoo.nrm(v) * max(1, zoo.nrm(x)) ** 2,
                f"{n}/transport/coincident",
                lambda: f"{lx} {lv}: transport(x,x,v) != v",
                nontrivial=(lx, lv))
    for lx, x in pts:
        basis = [(f"b{i}", b / inst.norm(x, b))
                 for i, b in enumerate(inst.basis(x))]
        vs = basis + inst.tangents(x, generic=2, maxbasis=0)
        size = max(1, zoo.nrm(x))
        for lv, v in vs:
            got = m.transport(x, geo.copy(x), v)
            rec.step()
            rec.check(
                inst.vshape_ok(got)
                and zoo.gap(got, v) <= 1e-10 * zoo.nrm(v) * size**2,
                f"{n}/transport/same-point",
                lambda: f"{lx} {lv}: transport(x,x,v) != v", nontrivial=(lx, lv))
        # nearby points
        for lu, u in inst.tangents(x, generic=1, maxbasis=1):
            for s in (1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2):
                y = m.retraction(x, s * u)
                if zoo.gap(list(x) if inst.kind == "product" else x,
                           list(y) if inst.kind == "product" else y
                           ) > min(100 * s * size, 0.5):
                    continue  # another representative
                for lv, v in vs:
                    got = m.transport(x, y, v)
                    rec.step()
                    rec.check(inst.is_tangent(y, got),
                              f"{n}/transport/tangent",
                              lambda: f"{lx}->{s:g}{lu} {lv}: not tangent at "
                              f"the target: {got!r}",
                              nontrivial=(lx, lu, s, lv))
                    g = zoo.gap(got, v)
                    rec.check(
                        g <= 50 * s * size * max(1, zoo.nrm(v)),
                        f"{n}/transport/continuous",
                        lambda: f"{lx}->{s:g}{lu} {lv}: |Tv-v|={g:.3e}",
                        nontrivial=(lx, lu, s, lv))
        for ly, y in pts:
            rec.state((n, lx, ly))
            rec.trace()
            images = []
            for lv, v in vs:
                got = m.transport(x, y, v)
                rec.step()
                images.append(got)
                rec.check(inst.is_tangent(y, got), f"{n}/transport/tangent",
                          lambda: f"{lx}->{ly} {lv}: not tangent at the "
                          f"target: {got!r}", nontrivial=(lx, ly, lv))
            big = max(1.0, max(zoo.nrm(i) for i in images))
            for i in (0, len(vs) // 2, -1):
                for s in (1e-12, 1e-9, 1e6):
                    got = m.transport(x, y, s * vs[i][1])
                    rec.step()
                    g = zoo.gap(got, s * images[i])
                    rec.check(g <= 1e-9 * big * s * size,
                              f"{n}/transport/homogeneous",
                              lambda: f"{lx}->{ly} {s}*{vs[i][0]}: {g:.3e}",
                              nontrivial=(lx, ly, i, s))
                for s in (-2.0, 1e-6, 1e3):
                    got = m.transport(x, y, lin(s, vs[i][1], 0.5, vs[-1][1]))
                    want = lin(s, images[i], 0.5, images[-1])
                    rec.step()
                    g = zoo.gap(got, want)
                    rec.check(g <= 1e-9 * big * (abs(s) + 1) * size,
                              f"{n}/transport/linear",
                              lambda: f"{lx}->{ly} {s}*{vs[i][0]}: {g:.3e}",
                              nontrivial=(lx, ly, i, s))
            if inst.isometric:
                for i, a in enumerate(vs):
                    for j in range(i + 1):
                        b = vs[j]
                        p = inst.inner(x, a[1], b[1])
                        q = inst.inner(y, images[i], images[j])
                        rec.check(abs(p - q) <= 1e-9,
                                  f"{n}/transport/isometry",
                                  lambda: f"{lx}->{ly} <{a[0]},{b[0]}>: {p} "
                                  f"becomes {q}", nontrivial=(lx, ly, i, j))
                if "log" not in inst.lacks and inside(inst, x, y):
                    got = m.transport(x, y, m.log(x, y))
                    want = -1 * m.log(y, x)
                    rec.step(3)
                    g = zoo.gap(got, want)
                    rec.check(g <= 1e-6 * max(1, zoo.nrm(want)),
                              f"{n}/transport/geodesic",
                              lambda: f"{lx}->{ly}: velocity not carried "
                              f"along, gap {g:.3e}", nontrivial=(lx, ly))
            rec.outcome(str(inst.transport))
    rec.sample({"instance": n, "pair": [lx, ly]})
