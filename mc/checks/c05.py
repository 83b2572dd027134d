"""The logarithm inverts the exponential map."""
import numpy as np

from .. import geo, zoo

ID = "C05"
LEVEL = "model_checking"
RULE = (
    "state = reachable point; transitions = log/exp/dist calls on every "
    "ordered pair of the point alphabet within the injectivity radius, on "
    "coincident and nearly coincident pairs, and log of the reference "
    "geodesic's end point along every tangent direction at magnitudes from 0 "
    "to 0.9999 of the injectivity radius"
)
ASSUMPTIONS = geo.ASSUME


def cases(tier):
    return geo.cases(tier, lacks=("log",))


def conditioning(inst, *points):
    if inst.kind == "product":
        return max(conditioning(f, *[p[i] for p in points])
                   for i, f in enumerate(inst.factors))
    if isinstance(inst.sl, zoo.PDS):
        return max(np.linalg.cond(q) for p in points for q in inst.parts(p))
    if isinstance(inst.sl, zoo.PoincareS):
        worst = [max(1 / (1 - np.dot(q, q)) for q in inst.parts(p))
                 for p in points]
        return max(1, 1e-3 * np.prod(sorted(worst)[-2:]))
    return 1.0


def inside(inst, x, y):
    """x and y are well within each other's injectivity radius."""
    if inst.kind == "product":
        return all(inside(f, a, b) for f, a, b in zip(inst.factors, x, y))
    for a, b in zip(inst.parts(x), inst.parts(y)):
        sl = inst.sl
        if isinstance(sl, zoo.GrassmannS):
            c = np.linalg.svd(zoo.H(a) @ b, compute_uv=False)
            if c.min() < 0.05:
                return False
        elif isinstance(sl, zoo.PSDS):
            c = np.linalg.svd(zoo.H(a) @ b, compute_uv=False)
            if c.min() < 0.05:
                return False
        elif isinstance(sl, zoo.GroupS):
            if np.abs(np.angle(np.linalg.eigvals(
                    zoo.H(a) @ b))).max() > 3.0:
                return False
        elif isinstance(sl, zoo.CircleS):
            if np.abs(np.angle(np.conj(a) * b)).max() > 3.1:
                return False
        elif isinstance(sl, zoo.ObliqueS):
            if (a * b).sum(0).min() < -0.999:
                return False
        elif isinstance(sl, zoo.SphereS):
            if np.vdot(a, b) < -0.999:
                return False
    return True


def from_cosines(inst):
    """Distances are arc cosines here: small angles lose half the digits."""
    if inst.kind == "product":
        return any(from_cosines(f) for f in inst.factors)
    return isinstance(inst.sl, (zoo.SphereS, zoo.ObliqueS, zoo.CircleS))


def inverse_tolerance(inst, t):
    """Bound on |log(x, exp(x, v)) - v| at fraction t of the radius.

    More than ten times the error which rounding causes.
    """
    t = abs(t)
    if t > 1:
        return 1e-6
    if from_cosines(inst):
        return min(2e-7, 1e-11 + 1e-14 / t + 1e-13 / (1 - t))
    return 1e-11 + 1e-14 / (1 - t)


def run_case(case, rec):
    inst = zoo.by_name(case["instance"])
    m, n = inst.get(), inst.name
    deep = case["tier"] == "thorough"
    pts = inst.points(generic=4 if deep else 3)
    extra = []
    for label, x in pts[: 4 if deep else 2]:
        for vl, v in inst.tangents(x, generic=1, maxbasis=1):
            for s in (1e-9, 1e-6, 1e-3):
                extra.append((f"{label}+{s:g}{vl}", inst.exp(x, s * v)))
    far = inst.extremes()[: None if deep else 3]
    pool = pts + extra + far
    for lx, x in pool:
        rec.state((n, np.round(zoo.flat(inst.invariant(x)), 12).tobytes()))
        rec.trace()
        v = m.log(x, geo.copy(x))
        rec.step()
        rec.check(
            zoo.finite(v) and inst.vshape_ok(v)
            and zoo.nrm(v) <= 5e-8 * max(1, zoo.nrm(x))
            * conditioning(inst, x),
            f"{n}/log/same-point", lambda: f"{lx}: log(x,x)={v!r}",
            nontrivial=lx)
        for ly, y in pool:
            if lx == ly or not inside(inst, x, y):
                continue
            c = conditioning(inst, x, y)
            v = m.log(x, y)
            rec.step(3)
            w = (lx, ly)
            if not rec.check(
                    inst.vshape_ok(v) and zoo.finite(v)
                    and inst.is_tangent(x, v, 1e-7),
                    f"{n}/log/tangent", lambda: f"{w}: {v!r}", nontrivial=w):
                continue
            d = inst.dist(x, y)
            tol = (2e-7 + 1e-6 * d) * c
            rec.check(abs(inst.norm(x, v) - d) <= tol, f"{n}/log/length",
                      lambda: f"{w}: |log|={inst.norm(x, v)!r} distance={d!r}",
                      nontrivial=w)
            if "dist" not in inst.lacks:
                dm = m.dist(x, y)
                rec.check(abs(m.norm(x, v) - dm) <= tol,
                          f"{n}/log/length-is-dist",
                          lambda: f"{w}: norm(log)={m.norm(x, v)!r} "
                          f"dist={dm!r}", nontrivial=w)
            z = m.exp(x, v)
            g = zoo.gap(inst.invariant(z), inst.invariant(y))
            rec.check(g <= (5e-8 + 1e-6 * d) * c * max(
                1, zoo.nrm(inst.invariant(y))), f"{n}/exp-log",
                lambda: f"{w}: exp(x, log(x,y)) misses y by {g:.3e} "
                f"(distance {d:.3e})", nontrivial=w)
    rec.sample({"instance": n, "pair": [lx, ly]})
    # rounding puts unit vectors on either side of one, and so on
    for i, (lx, x) in enumerate(inst.points(generic=40, special=False)):
        tangents = inst.tangents(x, generic=1, maxbasis=0)
        y = inst.exp(x, 1e-9 * tangents[i % len(tangents)][1])
        c = conditioning(inst, x, y)
        for ly, z in (("same", geo.copy(x)), ("near", y)):
            v = m.log(x, z)
            rec.step()
            rec.check(
                zoo.finite(v) and zoo.nrm(v) <= 6e-8 * max(1, zoo.nrm(x)) * c,
                f"{n}/log/coincident", lambda: f"{lx}, {ly}: log={v!r}",
                nontrivial=(lx, ly))
    for lx, x in pts:
        inj = inst.inj(x)
        radius = 3.0 if not np.isfinite(inj) else inj
        for vl, v in inst.tangents(x, generic=2, maxbasis=6 if deep else 3):
            unit = inst.slice_norms(x, v)
            beyond = () if np.isfinite(inj) else (2.0, -3.0)
            for t in (1e-10, 1e-7, 1e-5, 1e-4, 1e-3, 0.05, 0.4, 0.8, 0.95,
                      -0.9, 0.99, 0.999, 0.9999, *beyond):
                w = (t * radius / max(unit, 1e-12)) * v
                y = inst.exp(x, w)
                c = conditioning(inst, x, y)
                got = m.log(x, y)
                rec.step()
                g = zoo.gap(got, w)
                rec.check(
                    inst.vshape_ok(got) and zoo.finite(got)
                    and g <= inverse_tolerance(inst, t) * c * max(
                        1, zoo.nrm(x)),
                    f"{n}/log-exp",
                    lambda: f"{lx} {vl} t={t}: log(x, exp(x,v)) != v, gap "
                    f"{g:.3e} for |v|={zoo.nrm(w):.3e}", nontrivial=(lx, vl, t))
                rec.outcome(f"t={t}")
