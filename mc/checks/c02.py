"""Tangent vectors: projection, re-tangentialisation, embedding, zero, random."""
import numpy as np

from .. import geo, zoo
from ..geo import lin

ID = "C02"
LEVEL = "model_checking"
RULE = (
    "state = reachable point (point alphabet closed under one move of the real "
    "code); transitions = projection / to_tangent_space / embedding / "
    "zero_vector / random_tangent_vector calls on a basis of the reference "
    "tangent space, a basis of its complement and generic ambient vectors, at "
    "several magnitudes; the linear map is thereby determined on a whole basis"
)
ASSUMPTIONS = geo.ASSUME


def cases(tier):
    return geo.cases(tier)


def run_case(case, rec):
    inst = zoo.by_name(case["instance"])
    m, n = inst.get(), inst.name
    deep = case["tier"] == "thorough"
    for history, x in zoo.reachable(
            inst, rec, 2 if deep else 1, extremes=True):
        explore_point(inst, m, n, history, x, rec, deep)
        rec.trace()
    rec.sample({"instance": n, "history": list(history)})


def explore_point(inst, m, n, history, x, rec, deep):
    cond = 1.0
    sl = getattr(inst, "sl", None)
    if isinstance(sl, zoo.PDS) and sl.unit:
        cond = max(np.linalg.cond(p) for p in inst.parts(x))
    tol = 1e-9 * cond

    def near(a, b, scale):
        return zoo.gap(a, b) <= tol * scale

    basis = inst.basis(x)
    zero = m.zero_vector(x)
    rec.step()
    rec.check(
        zoo.finite(zero) and zoo.nrm(zero) == 0 and _zshape(inst, zero),
        f"{n}/zero_vector", lambda: f"{history}: {zero!r}",
        nontrivial=history)
    vectors = [(f"b{i}", b) for i, b in enumerate(basis)]
    vectors += inst.tangents(x, generic=1)
    for label, v in vectors:
        big = label.startswith("dir") or label in ("b0", "v0")
        for s in ((1e-7, 1.0, 1e4) if big else (1.0,)):
            w = s * v
            e = inst.embed(x, w)
            rec.step(3)
            got = m.projection(x, e)
            rec.check(
                inst.is_tangent(x, got) and near(got, w, zoo.nrm(w) * max(
                    1, _size(x))),
                f"{n}/projection/fixes-tangent",
                lambda: f"{history} {label}*{s}: P(v) != v, gap "
                f"{zoo.gap(got, w):.3e}", nontrivial=(history, label, s))
            got = m.to_tangent_space(x, w)
            rec.check(
                inst.vshape_ok(got) and near(got, w, zoo.nrm(w) * max(
                    1, _size(x))),
                f"{n}/to_tangent_space/fixes-tangent",
                lambda: f"{history} {label}*{s}: changed a tangent vector by "
                f"{zoo.gap(got, w):.3e}", nontrivial=(history, label, s))
            if inst.kind != "fixedrank":
                got = m.embedding(x, w)
                rec.check(_emb(inst, x, got, e), f"{n}/embedding",
                          lambda: f"{history} {label}*{s}: embedding is not "
                          "the ambient tangent vector",
                          nontrivial=(history, label, s))
            else:
                U, S, V = m.embedding(x, w)
                got = U @ S @ V.T
                rec.check(near(got, e, zoo.nrm(e)), f"{n}/embedding",
                          lambda: f"{history} {label}",
                          nontrivial=(history, label, s))
    for i, c in enumerate(inst.comp(x)):
        got = m.projection(x, c)
        rec.step()
        rec.check(
            inst.vshape_ok(got) and zoo.nrm(got) <= tol * max(
                1, zoo.nrm(c)) * max(1, _size(x)),
            f"{n}/projection/annihilates-complement",
            lambda: f"{history} complement[{i}]: |P(n)|={zoo.nrm(got):.3e}",
            nontrivial=(history, i))
    amb = inst.ambient(x, 3 if deep else 2)
    images = []
    for label, z in amb:
        p = m.projection(x, z)
        images.append(p)
        rec.step(2)
        scale = max(1, _size(x)) * max(1, zoo.nrm(z))
        if not rec.check(
                inst.is_tangent(x, p), f"{n}/projection/tangent",
                lambda: f"{history} {label}: P(z) is not tangent",
                nontrivial=(history, label)):
            continue
        p2 = m.projection(x, inst.embed(x, p))
        rec.check(near(p2, p, scale), f"{n}/projection/idempotent",
                  lambda: f"{history} {label}: |PPz-Pz|="
                  f"{zoo.gap(p2, p):.3e}", nontrivial=(history, label))
        if inst.sl.euclidean_metric and inst.kind != "product":
            for j, b in enumerate(basis[:6]):
                lhs = np.dot(zoo.flat(inst.embed(x, p)),
                             zoo.flat(inst.embed(x, b)))
                rhs = np.dot(zoo.flat(z), zoo.flat(inst.embed(x, b)))
                rec.check(
                    abs(lhs - rhs) <= 1e-8 * scale,
                    f"{n}/projection/orthogonal",
                    lambda: f"{history} {label} b{j}: <Pz,v>={lhs} "
                    f"<z,v>={rhs}", nontrivial=(history, label, j))
        # a vector merely close to the tangent space is re-tangentialised
        if inst.kind == "array":
            got = m.to_tangent_space(x, z)
            rec.step()
            rec.check(inst.is_tangent(x, got),
                      f"{n}/to_tangent_space/tangent",
                      lambda: f"{history} {label}: not tangent, residual "
                      f"{inst.tres(x, got) if inst.vshape_ok(got) else 'shape'}",
                      nontrivial=(history, label))
    # linear maps have no scale: nothing is small or large in absolute terms
    cases = [("projection", z, p) for (_, z), p in zip(amb, images)]
    cases += [("projection", c, m.projection(x, c))
              for c in inst.comp(x)[:3]]
    if inst.kind == "array":
        cases += [("to_tangent_space", z, m.to_tangent_space(x, z))
                  for _, z in amb[:1]]
    for i, (op, z, p) in enumerate(cases):
        for s in (1e-12, 1e-9, 1e-6, 1e6):
            got = getattr(m, op)(x, lin(s, z, 0.0, z))
            rec.step()
            g = zoo.gap(got, lin(s, p, 0.0, p))
            rec.check(g <= tol * s * zoo.nrm(z) * max(1, _size(x)),
                      f"{n}/{op}/homogeneous",
                      lambda: f"{history} {s:g}*vector{i}: not {s:g} times "
                      f"the image of the vector, gap {g:.3e}",
                      nontrivial=(history, i, s))
    if inst.kind == "fixedrank":
        u, s, vt = x
        v = basis[len(basis) // 2]
        w = inst.wrap(x, [v[0] + 1e-3 * u, v[1], v[2] + 1e-3 * vt.T])
        got = m.to_tangent_space(x, w)
        rec.step()
        rec.check(inst.is_tangent(x, got) and near(got, v, 1),
                  f"{n}/to_tangent_space/tangent", lambda: f"{history}",
                  nontrivial=history)
        r = zoo.rng(n, "lowrank")
        for q in (1, 2, 3):
            U, S, V = (zoo.rnd(r, (inst.mm, q)), zoo.rnd(r, (q, q)),
                       zoo.rnd(r, (inst.nn, q)))
            a = m.projection(x, (U, S, V))
            b = m.projection(x, U @ S @ V.T)
            rec.step(2)
            rec.check(zoo.gap(a, b) <= 1e-9 * max(1, zoo.nrm(b)),
                      f"{n}/projection/low-rank-ambient",
                      lambda: f"{history}: projecting (U, S, V) differs from "
                      f"projecting U @ S @ V.T by {zoo.gap(a, b):.3e}",
                      nontrivial=(history, q))
    if len(amb) >= 2:
        (_, z0), (_, z1) = amb[0], amb[1]
        got = m.projection(x, lin(2.0, z0, -3.0, z1))
        want = lin(2.0, images[0], -3.0, images[1])
        rec.step()
        rec.check(near(got, want, 10 * max(1, _size(x)) * (
            zoo.nrm(z0) + zoo.nrm(z1))), f"{n}/projection/linear",
            lambda: f"{history}: gap {zoo.gap(got, want):.3e}",
            nontrivial=history)
    if inst.dim() > 0:
        for seed in range(4):
            np.random.seed(seed)
            v = m.random_tangent_vector(x)
            rec.step()
            good = rec.check(
                inst.is_tangent(x, v), f"{n}/random_tangent_vector/tangent",
                lambda: f"{history} seed{seed}: {v!r}",
                nontrivial=(history, seed))
            if good:
                nv = inst.norm(x, v)
                rec.check(abs(nv - 1) <= 1e-7 * cond,
                          f"{n}/random_tangent_vector/unit",
                          lambda: f"{history} seed{seed}: norm {nv}",
                          nontrivial=(history, seed))


    if inst.dim() > 0 and not any("extreme" in str(h) for h in history):
        # no tangent direction is out of reach
        np.random.seed(7)
        dim = inst.dim()
        draws = [zoo.flat(m.random_tangent_vector(x))
                 for _ in range(4 * dim)]
        rec.step(4 * dim)
        sizes = np.linalg.svd(np.array(
            [np.concatenate([d.real, d.imag]) for d in draws]),
            compute_uv=False)
        rec.check((sizes > 1e-6 * sizes[0]).sum() >= dim,
                  f"{n}/random_tangent_vector/directions",
                  lambda: f"{history}: {4 * dim} draws span "
                  f"{(sizes > 1e-6 * sizes[0]).sum()} of {dim} dimensions "
                  f"({sizes})", nontrivial=history)


def _size(x):
    return zoo.nrm(x)


def _zshape(inst, z):
    if inst.kind == "product":
        return len(z) == len(inst.factors) and all(
            _zshape(f, p) for f, p in zip(inst.factors, z))
    if inst.kind == "fixedrank":
        return inst.vshape_ok(z)
    return np.shape(z) == inst.shape


def _emb(inst, x, got, want):
    if inst.kind == "product":
        return len(got) == len(want) and all(
            f.kind == "fixedrank" or _emb(f, p, g, w)
            for f, p, g, w in zip(inst.factors, x, got, want))
    if inst.kind == "fixedrank":
        if isinstance(got, np.ndarray):
            return zoo.gap(got, want) <= 1e-9 * max(1, zoo.nrm(want))
        U, S, V = got
        return zoo.gap(U @ S @ V.T, want) <= 1e-9 * max(1, zoo.nrm(want))
    return zoo.gap(got, want) <= 1e-9 * max(1e-9, zoo.nrm(want))
