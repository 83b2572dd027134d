"""Hand-written parts of the per-property sections of DESIGN.md."""
NOTES = {
    "C01": {"oracle": "the membership residual of mc/zoo.py (defining equations, shape, dtype, finiteness), scaled by the conditioning of the start; canonical forms for the visited set.", "cost": "quick 15 s, thorough 7 min"},
    "C02": {"oracle": "tangent-space equations, a real basis of the tangent space and of its complement; matrix of `projection` in that basis compared entry by entry.", "cost": "4 s / 2 min"},
    "C03": {"oracle": "documented metrics written out in plain numpy; Gram matrix of a basis: real, symmetric, positive definite; bilinearity on every pair; homogeneity of the norm over 1e-150..1e150.", "cost": "6 s / 24 s"},
    "C04": {"oracle": "closed-form geodesics; where none exist the geodesic equation by differences; two-stage law exp(exp(x, sv), (t-s)v'); reversal; constant speed.", "cost": "3 s / 1 min"},
    "C05": {"oracle": "exp(x, log(x, y)) = y, length against the reference distance, log of the reference end point; zero at coincident points.", "cost": "6 s / 20 s"},
    "C06": {"oracle": "closed-form distances evaluated in a cancellation-free form; symmetry, identity of indiscernibles, triangle inequality over all triples; length of the reference geodesic.", "cost": "4 s / 10 s"},
    "C07": {"oracle": "difference quotients of the reference embedding over decades of step sizes (the error has to fall at first/second order); exact identities at zero.", "cost": "2 s / 84 s"},
    "C08": {"oracle": "tangency, linearity over a basis, identity at y = x, limit y -> x; closed-form parallel transports; isometry and carrying of the geodesic's velocity where documented.", "cost": "2 s / 14 s"},
    "C09": {"oracle": "<converted, w> against the exact differential for every w of a basis and every ambient basis gradient; invariant costs for quotients.", "cost": "3 s / 99 s"},
    "C10": {"oracle": "covariant derivative of the converted gradient field along reference geodesics; symmetry over all pairs of a basis.", "cost": "2 s / 55 s"},
    "C11": {"oracle": "rank of the real span of all projected basis vectors; array counts of real points; formulas of the documentation.", "cost": "1 s / 2 s"},
    "C12": {"oracle": "the factors' own operations, on equal components; arithmetic of product vectors against plain lists.", "cost": "8 s / 32 s"},
    "C13": {"oracle": "the single-copy manifold applied to each slice.", "cost": "9 s / 33 s"},
    "C14": {"oracle": "equality of invariants before and after moving along the fibre by every group element of the alphabet.", "cost": "1 s / 2 s"},
    "C15": {"oracle": "reference distances of the midpoint to both ends; closed-form geodesic midpoint.", "cost": "14 s / 2.5 min"},
    "C16": {"oracle": "bytes of all arguments before and after; the same call before and after every other call; every memory layout; state of numpy's generator; aliasing between results; arguments changed in place between calls.", "cost": "6 s / 11 s"},
    "C17": {"oracle": "hand-derived gradients of a term grammar (mc/diff.py), themselves verified by central differences; shape, dtype and stability of returned arrays.", "cost": "19 s / 1-2 min"},
    "C18": {"oracle": "hand-derived second derivatives of the same grammar, for every basis direction.", "cost": "36 s / 4 min"},
    "C19": {"oracle": "a reference that groups and flattens arguments itself and records every call of every user function.", "cost": "16 s / 3 min"},
    "C20": {"oracle": "a validity predicate written from the documentation; accepted if and only if valid.", "cost": "1 s / 1 s"},
    "C21": {"oracle": "recorded answers: each accepted iterate (seen by the gradient, the log and the result) has an answer not above the previous one.", "cost": "21 s / 2 min"},
    "C22": {"oracle": "every field of the result recomputed from the recorded environment.", "cost": "20 s / 3 min"},
    "C23": {"oracle": "the unbudgeted history; every criterion and pair of criteria placed at every iterate; first iterate where one holds.", "cost": "20 s / 5 min"},
    "C24": {"oracle": "the same run on a fresh optimizer, bit for bit; user-owned arrays and objects unchanged.", "cost": "30 s / 47 s"},
    "C25": {"oracle": "Armijo condition and trial sequence recomputed from recorded answers; returned step, point and stored step size of later calls.", "cost": "18 s / 4.5 min"},
    "C26": {"oracle": "an independent trust-region machine in orthonormal coordinates, stepping in lockstep (Steihaug-Toint truncated CG, radius rule, acceptance rule).", "cost": "28 s / 4.5 min"},
    "C27": {"oracle": "the published beta formulas on transported vectors, restarts (Powell, non-descent), with enumerated step lengths and gradients.", "cost": "15 s / 2.5 min"},
    "C28": {"oracle": "a nondeterministic simplex machine: reflection, expansion, both contractions, shrink along geodesics through the Karcher mean.", "cost": "20 s / 3.5 min"},
    "C29": {"oracle": "velocity rule for every assignment of the iteration's random draws; personal and swarm bests recomputed.", "cost": "15 s / 2 min"},
    "C30": {"oracle": "log columns recomputed from the recorded environment; keys, lengths, per-run freshness.", "cost": "14 s / 2 min"},
    "C31": {"oracle": "closed-form optimal values; gradient norm by an independent formula.", "cost": "19 s / 20 s"},
    "C32": {"oracle": "textbook definition per matrix (scipy / closed forms for special matrices), and batched against single.", "cost": "4 s / 10 s"},
    "C33": {"oracle": "values recomputed from the recorded calls of the checker; slope dictated by the planted mistake; independent segment finder.", "cost": "19 s / 8-10 min"},
    "C34": {"oracle": "the silent run; parsed text against the log; an independent column formatter.", "cost": "19 s / 2-3 min"},
    "C35": {"oracle": "identity of the exception object; snapshot of numpy's error state, print options, warning filters, streams, environment; a clean run on fresh objects.", "cost": "19 s / see thorough"},
    "C36": {"oracle": "closed-form derivatives, exit state and messages of one process per installation state.", "cost": "25 s / 2 min"},
    "C37": {"oracle": "closed-form Weingarten maps; the manifold classes' own conversions.", "cost": "2 s / 5 s"},
    "C38": {"oracle": "the other formulation, run under the same answers.", "cost": "20 s / minutes"},
    "C39": {"oracle": "the run in which every published default is named; nothing is compared with a model, so no tolerance.", "cost": "20 s / 1 min"},
    "C40": {"oracle": "the same run on hand-derived Euclidean derivatives in plain numpy.", "cost": "30 s / 3 min"},
}
