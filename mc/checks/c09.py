"""Euclidean gradients become Riemannian gradients."""
import numpy as np

from .. import calculus, geo, zoo

ID = "C09"
LEVEL = "model_checking"
RULE = (
    "state = reachable point; transitions = euclidean_to_riemannian_gradient "
    "on every ambient basis matrix (embedded manifolds; the linear conversion "
    "is thereby determined) and on gradients of generic and invariant costs; "
    "the result is paired with every element of the tangent basis (Riesz)"
)
ASSUMPTIONS = geo.ASSUME + [
    "fixed-rank matrices are explored at distinct singular values only"]


def cases(tier):
    return geo.cases(tier)


def gradients(inst, x, deep):
    cost = calculus.cost_for(inst)
    out = [("cost", cost.grad(x))]
    if inst.kind == "array":
        if not calculus.quotient(inst):
            r = zoo.rng(inst.name, "grads")
            size = int(np.prod(inst.shape))
            units = range(size) if size <= 12 or deep else range(0, size, 2)
            for i in units:
                e = np.zeros(size, dtype=complex if inst.cplx else float)
                e[i] = 1
                out.append((f"e{i}", e.reshape(inst.shape)))
                if inst.cplx:
                    out.append((f"ie{i}", 1j * e.reshape(inst.shape)))
            for s in (1e-9, 1e6):
                out.append((f"{s:g}*generic", s * zoo.rnd(
                    r, inst.shape, inst.cplx)))
        else:
            out.append(("1e-9*cost", 1e-9 * out[0][1]))
            for j in range(2):
                parts = []
                for i, p in enumerate(inst.parts(x)):
                    w = zoo.herm(zoo.rnd(zoo.rng(inst.name, "W", i, j), (
                        inst.sl.shape[0],) * 2, inst.cplx))
                    parts.append(w @ p)
                out.append((f"W{j}x", inst.join(parts)))
    return out


def ambient_of(inst, x, e):
    """The ambient vector e stands for (only differs for fixed rank)."""
    if inst.kind == "product":
        return [ambient_of(f, p, q) for f, p, q in zip(inst.factors, x, e)]
    if inst.kind == "fixedrank":
        u, s, vt = x
        return calculus.cost_for(inst).ambient((u * s) @ vt)
    return e


def run_case(case, rec):
    inst = zoo.by_name(case["instance"])
    m, n = inst.get(), inst.name
    deep = case["tier"] == "thorough"
    for history, x in zoo.reachable(
            inst, rec, 2 if deep else 1, extremes=True):
        basis = inst.basis(x)
        emb = [inst.embed(x, b) for b in basis]
        size = max(1, zoo.nrm(x))
        for label, e in gradients(inst, x, deep):
            g = m.euclidean_to_riemannian_gradient(x, e)
            rec.step()
            rec.trace()
            w = (history, label)
            if not rec.check(
                    inst.is_tangent(x, g, 1e-7), f"{n}/gradient/tangent",
                    lambda: f"{w}: {g!r}", nontrivial=w):
                continue
            for s in (1e-12, 1e-8, 1e6):
                got = m.euclidean_to_riemannian_gradient(
                    x, geo.lin(s, e, 0.0, e))
                rec.step()
                gg = zoo.gap(got, s * g)
                rec.check(gg <= 1e-9 * s * size**2 * max(
                    zoo.nrm(g), zoo.nrm(e)), f"{n}/gradient/homogeneous",
                    lambda: f"{w}: {s:g} times the Euclidean gradient, "
                    f"gap {gg:.3e}", nontrivial=(w, s))
            amb = ambient_of(inst, x, e)
            scale = zoo.nrm(amb)
            worst, at = 0.0, None
            for i, b in enumerate(basis):
                lhs, rhs = inst.inner(x, g, b), calculus.dot(amb, emb[i])
                err = abs(lhs - rhs) / max(1e-12, zoo.nrm(emb[i]))
                if not err <= worst:
                    worst, at = err, (i, lhs, rhs)
            rec.check(
                worst <= 1e-8 * scale * size**2, f"{n}/gradient/riesz",
                lambda: f"{w}: <grad, b{at[0]}> = {at[1]} but the directional "
                f"derivative is {at[2]}", nontrivial=w)
            rec.evaluations += len(basis)
        if zoo.curved(inst, x):
            continue
        # the conversion agrees with a difference quotient along the
        # retraction, independently of any formula for the embedding
        cost = calculus.cost_for(inst)
        g = m.euclidean_to_riemannian_gradient(x, cost.grad(x))
        f0 = cost.cost(x)
        for lv, v in inst.tangents(x, generic=2, maxbasis=2):
            h = 1e-5
            d = (cost.cost(m.retraction(x, h * v))
                 - cost.cost(m.retraction(x, -h * v))) / (2 * h)
            want = m.inner_product(x, g, v)
            rec.step(4)
            rec.check(abs(d - want) <= 1e-5 * max(
                1, abs(want), abs(f0), zoo.nrm(cost.grad(x))),
                f"{n}/gradient/difference",
                lambda: f"{history} {lv}: difference quotient {d}, inner "
                f"product {want}", nontrivial=(history, lv))
    rec.sample({"instance": n, "history": list(history)})
