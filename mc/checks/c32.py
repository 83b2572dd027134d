"""Batched matrix helpers equal the per-matrix operation."""
import itertools

import numpy as np

from pymanopt.tools import multi

from .. import core, zoo

ID = "C32"
LEVEL = "model_checking"
RULE = (
    "state = (helper, matrix size, number type, stack of matrices from the "
    "alphabet, memory layout); one transition per call of the real helper; "
    "every slice of the result is compared with the textbook definition and "
    "with the result for the matrix on its own, for every stack of up to "
    "three matrices of the alphabet"
)
ASSUMPTIONS = [
    "stacks have at least one matrix",
    "logarithms are taken of matrices without eigenvalues on the closed "
    "negative real axis, or of matrices whose principal logarithm is complex "
    "because of simple negative eigenvalues",
]


def alphabet(n, cplx, kind):
    """Named n x n matrices."""
    r = zoo.rng("c32", n, cplx, kind)
    eye = np.eye(n, dtype=complex if cplx else float)
    gen = [zoo.rnd(r, (n, n), cplx) for _ in range(3)]
    out = {}
    if kind in ("any", "small"):
        out = {"zero": 0 * eye, "identity": eye, "generic": gen[0],
               "second": gen[1], "diagonal": np.diag(np.arange(1.0, n + 1)
                                                     ) * eye,
               "nilpotent": np.triu(gen[2], 1), "tiny": 1e-9 * gen[1],
               "hermitian": zoo.herm(gen[2]),
               "skew": (gen[0] - zoo.H(gen[0])) / 2,
               "rank1": gen[0][:, :1] @ zoo.H(gen[1][:, :1])}
        if kind == "any":
            out["large"] = 1e6 * gen[0]
            out["permutation"] = np.roll(eye, 1, axis=0)
        if cplx:
            out["phase"] = 1j * eye
    elif kind == "hermitian":
        out = {"zero": 0 * eye, "identity": eye, "generic": zoo.herm(gen[0]),
               "second": zoo.herm(gen[1]), "diagonal": np.diag(
                   np.arange(1.0, n + 1) - 2) * eye,
               "large": 10 * zoo.herm(gen[0]), "tiny": 1e-9 * zoo.herm(
                   gen[1]), "rank1": gen[0][:, :1] @ zoo.H(gen[0][:, :1])}
    elif kind == "definite":
        q = np.linalg.qr(gen[0])[0]
        out = {"identity": eye, "generic": eye + gen[0] @ zoo.H(gen[0]),
               "second": 0.1 * eye + gen[1] @ zoo.H(gen[1]),
               "spread": zoo.herm((q * np.logspace(-4, 4, n)) @ zoo.H(q)),
               "scalar": 7.0 * eye, "small": 1e-8 * eye,
               "minute": 1e-20 * eye,
               "wide": np.diag(np.logspace(-15, 6, n + 1)[:n]) * eye,
               "dwarf": 1e-14 * (eye + gen[1] @ zoo.H(gen[1])),
               "giant": 1e30 * (eye + gen[0] @ zoo.H(gen[0]))}
    elif kind == "rotation-like":
        q = zoo.herm(gen[0])
        out = {"identity": eye, "near": eye + 0.2 * gen[0] / n,
               "positive": eye + gen[1] @ zoo.H(gen[1]),
               "unitary": expm(0.9 * (gen[1] - zoo.H(gen[1])) / (2 * n)),
               "scalar": 3.0 * eye}
        if n > 1:
            # the principal logarithm of a real matrix can be complex
            out["negative"] = np.diag([-1.0] + list(
                np.arange(2.0, n + 1))) * eye
        else:
            out["negative"] = -2.0 * eye
        if cplx:
            out["phase"] = 1j * eye
    return out


def expm(a):
    """Scaling and squaring of the Taylor series, in plain numpy."""
    a = np.asarray(a, dtype=complex if np.iscomplexobj(a) else float)
    s = max(0, int(np.ceil(np.log2(max(1e-300, np.linalg.norm(a)) + 1))) + 4)
    b = a / 2.0**s
    out = term = np.eye(len(a), dtype=a.dtype)
    for i in range(1, 18):
        term = term @ b / i
        out = out + term
    for _ in range(s):
        out = out @ out
    return out


def is_logarithm(a, x):
    d = np.diag(a)
    if np.array_equal(a, np.diag(d)) and np.isrealobj(d) and d.min() > 0:
        return close(x, np.diag(np.log(d)), 1 + np.abs(np.log(d)).max())
    back = expm(x)
    angles = np.imag(np.linalg.eigvals(x))
    return (np.linalg.norm(back - a) <= 1e-8 * np.linalg.norm(a) * max(
        1, np.linalg.cond(a) * 1e-3)
        and np.all(np.abs(angles) <= np.pi + 1e-6))


def close(a, b, scale=None):
    scale = np.linalg.norm(b) if scale is None else scale
    return a.shape == b.shape and np.linalg.norm(a - b) <= 1e-11 * max(
        scale, 1e-300)


def helpers():
    """name -> (kind of matrices, call, judge(matrix, result))"""
    t, h = (lambda a: a.T), (lambda a: a.conj().T)
    linear = {
        "multitransp": t, "multihconj": h,
        "multisym": lambda a: (a + t(a)) / 2,
        "multiherm": lambda a: (a + h(a)) / 2,
        "multiskew": lambda a: (a - t(a)) / 2,
        "multiskewh": lambda a: (a - h(a)) / 2,
    }
    out = {}
    for name, f in linear.items():
        out[name] = ("any", getattr(multi, name),
                     lambda a, y, f=f: close(y, f(a), np.linalg.norm(a)))
    out["multiexpm"] = ("small", multi.multiexpm,
                        lambda a, y: close(y, expm(a), 10 * np.exp(
                            np.linalg.norm(a, 2))))
    out["multiexpm/symmetric"] = (
        "hermitian", lambda a: multi.multiexpm(a, symmetric=True),
        lambda a, y: close(y, expm(a), 10 * np.linalg.norm(expm(a))))
    out["multilogm"] = ("rotation-like", multi.multilogm, is_logarithm)
    out["multilogm/definite"] = (
        "definite", lambda a: multi.multilogm(a, positive_definite=True),
        is_logarithm)
    return out


def cases(tier):
    deep = tier == "thorough"
    out = []
    for name in list(helpers()) + ["multiqr"]:
        for n, cplx in itertools.product((1, 2, 3, 4), (False, True)):
            out.append({"id": f"{name}/{n}/{'complex' if cplx else 'real'}",
                        "helper": name, "n": n, "cplx": cplx, "deep": deep})
    out.append({"id": "multieye", "helper": "multieye"})
    return sorted(out, key=lambda c: "logm" not in c["helper"])


def layouts(a):
    yield "plain", a
    yield "fortran", np.asfortranarray(a)
    big = np.zeros(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
    big[..., ::2] = a
    yield "strided", big[..., ::2]
    if a.ndim == 3:
        moved = np.ascontiguousarray(np.moveaxis(a, 0, -1))
        yield "axes", np.moveaxis(moved, -1, 0)
    yield "reversed", np.ascontiguousarray(a[::-1])[::-1]


def stacks(names, deep):
    yield from ((n,) for n in names)
    yield from itertools.product(names, repeat=2)
    triples = list(itertools.product(names, repeat=3))
    yield from triples if deep else triples[::7]
    # as many slices as rows, and more
    yield from (tuple(names[(i + j) % len(names)] for j in range(k))
                for k in (4, 5) for i in range(3))


def run_case(case, rec):
    if case["helper"] == "multieye":
        for k, n in itertools.product(range(1, 5), range(1, 5)):
            y = multi.multieye(k, n)
            rec.step()
            rec.state(("eye", k, n))
            rec.check(y.shape == (k, n, n) and all(
                np.array_equal(s, np.eye(n)) for s in y), "multieye",
                lambda: f"k={k}, n={n}: {y}", nontrivial=(k, n))
        rec.trace()
        return
    if case["helper"] == "multiqr":
        return qr(case, rec)
    kind, call, judge = helpers()[case["helper"]]
    mats = alphabet(case["n"], case["cplx"], kind)
    alone = {}
    for name, a in mats.items():
        y = invoke(rec, case, call, a, name)
        alone[name] = y
        rec.check(y.shape == a.shape and judge(a, y), f"{case['id']}/single",
                  lambda: f"{name}: {a} -> {y}", nontrivial=name)
    for names in stacks(list(mats), case["deep"]):
        a = np.stack([mats[n] for n in names])
        y = invoke(rec, case, call, a, names)
        rec.state((case["id"], names))
        rec.trace()
        rec.outcome((case['helper'], len(names), str(y.dtype)))
        rec.check(y.shape == a.shape, f"{case['id']}/shape",
                  lambda: f"{names}: shape {y.shape}")
        for i, n in enumerate(names):
            rec.check(
                np.linalg.norm(y[i] - alone[n]) <= 1e-9 * max(
                    np.linalg.norm(alone[n]), np.linalg.norm(mats[n]) if
                    kind != "definite" else 0, 1e-300)
                and judge(mats[n], y[i]), f"{case['id']}/slice",
                lambda: f"{names}, slice {i}: {mats[n]} -> {y[i]}, on its own "
                f"{alone[n]}", nontrivial=(names, i))


def invoke(rec, case, call, a, label):
    """Call in every layout; nothing may change the argument."""
    kept = a.copy()
    want = call(a)
    rec.step()
    rec.check(np.array_equal(a, kept), f"{case['id']}/argument",
              lambda: f"{label}: modified its argument", nontrivial=label)
    expect = np.iscomplexobj(a) or "logm" in case["helper"]
    rec.check(expect or not np.iscomplexobj(want), f"{case['id']}/type",
              lambda: f"{label}: {a.dtype} became {want.dtype}",
              nontrivial=label)
    if isinstance(label, str) or len(label) == 2:
        for layout, b in layouts(a):
            b.setflags(write=False)
            y = call(b)
            rec.step()
            rec.check(
                y.shape == want.shape and np.linalg.norm(
                    y - want) <= 1e-11 * np.linalg.norm(want),
                f"{case['id']}/layout", lambda: f"{label}, {layout}: {y}, "
                f"plain {want}", nontrivial=(label, layout))
    return want


def refuses(bad):
    try:
        multi.multiqr(bad)
    except ValueError:
        return True
    return False


def qr(case, rec):
    n, cplx = case["n"], case["cplx"]
    for p in (range(1, n + 1)):
        r = zoo.rng("c32qr", n, p, cplx)
        gen = [zoo.rnd(r, (n, p), cplx) for _ in range(3)]
        eye = np.eye(n, p, dtype=complex if cplx else float)
        mats = {"generic": gen[0], "second": gen[1], "identity": eye,
                "negated": -eye, "tiny": 1e-9 * gen[2],
                "large": 1e6 * gen[1], "zero": 0 * eye,
                "deficient": gen[0][:, :1] @ zoo.H(gen[1][:p, :1]),
                "flip": gen[0] * -1}
        if cplx:
            mats["phase"] = 1j * eye
        single = {}

        def judge(a, q, t, key, label):
            scale = max(np.linalg.norm(a), 1e-300)
            d = np.diagonal(t)
            rec.check(
                q.shape == (n, p) and t.shape == (p, p)
                and np.linalg.norm(q @ t - a) <= 1e-12 * scale
                and np.linalg.norm(zoo.H(q) @ q - np.eye(p)) <= 1e-12 * n
                and np.linalg.norm(np.tril(t, -1)) <= 1e-12 * scale
                and np.all(np.abs(np.imag(d)) <= 1e-12 * scale)
                and np.all(np.real(d) >= -1e-13 * scale),
                f"{case['id']}/{key}", lambda: f"{label}: A={a}, Q={q}, R={t}",
                nontrivial=label)

        for name, a in mats.items():
            q, t = multi.multiqr(a)
            rec.step()
            single[name] = q
            judge(a, q, t, "single", (p, name))
            for layout, b in layouts(a):
                b.setflags(write=False)
                q2, t2 = multi.multiqr(b)
                rec.check(np.linalg.norm(q2 @ t2 - a) <= 1e-12 * max(
                    np.linalg.norm(a), 1e-300), f"{case['id']}/layout",
                    lambda: f"{name}, {layout}", nontrivial=(name, layout))
        for names in stacks(list(mats), case["deep"]):
            a = np.stack([mats[m] for m in names])
            kept = a.copy()
            q, t = multi.multiqr(a)
            rec.step()
            rec.trace()
            rec.outcome(("multiqr", len(names), str(q.dtype)))
            rec.state((case["id"], p, names))
            rec.check(np.array_equal(a, kept), f"{case['id']}/argument",
                      lambda: f"{names}: modified", nontrivial=names)
            rec.check(q.shape == (len(names), n, p) and t.shape == (
                len(names), p, p), f"{case['id']}/shape",
                lambda: f"{names}: {q.shape}, {t.shape}")
            rec.check(cplx or not np.iscomplexobj(q), f"{case['id']}/type",
                      lambda: f"{names}: {q.dtype}")
            for i, m in enumerate(names):
                judge(mats[m], q[i], t[i], "slice", (p, names, i))
                if m not in ("zero", "deficient"):
                    rec.check(np.linalg.norm(q[i] - single[m]) <= 1e-11,
                              f"{case['id']}/slice", lambda: f"{names}, slice "
                              f"{i}: Q {q[i]}, on its own {single[m]}",
                              nontrivial=(p, names, i))
    for bad in (np.zeros(3), np.zeros((2, 2, 2, 2)), np.zeros(())):
        rec.check(refuses(bad),
                  f"{case['id']}/reject", lambda: f"accepted shape "
                  f"{bad.shape}", nontrivial=bad.shape)
