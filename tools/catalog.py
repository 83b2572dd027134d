"""Source of properties.jsonl and MANIFEST.json (see generate.py)."""

MAN = "src/pymanopt/manifolds/"
ALLMAN = [MAN + f for f in (
    "manifold.py", "complex_circle.py", "euclidean.py", "fixed_rank.py",
    "grassmann.py", "group.py", "hyperbolic.py", "oblique.py", "positive.py",
    "positive_definite.py", "product.py", "psd.py", "sphere.py",
    "stiefel.py")]
OPT = "src/pymanopt/optimizers/"
GEO_BOUND = (
    "all manifold classes and their constructor modes (stacked, polar/qr, "
    "parallel transport, complex, products) at small sizes, every special and "
    "generic point of the alphabet closed under moves of the code, every "
    "element of a tangent basis plus generic directions, all listed magnitudes")
GEO_TESTS = (
    "The existing tests draw one random point and vector per class at one "
    "size, mostly k=1 and seldom complex, and compare with allclose defaults; "
    "special positions, stacks, magnitudes and chained moves are not sampled.")
OPT_TESTS = (
    "The optimizer tests run a handful of well conditioned problems to "
    "convergence and look at the end point; no test makes the cost, the "
    "gradient or the clock misbehave at a chosen evaluation.")
GEO_NOTE = (
    "Exhaustive over the stated alphabet (instances x points x basis "
    "directions x magnitudes, closed under moves of the real code to the "
    "stated depth), run on the real implementation; trusts the analytic "
    "reference models and numpy/scipy, and says nothing about sizes beyond "
    "the bound.")
OPT_NOTE = (
    "Exhaustive over the stated environment answers (deviation-bounded "
    "stateless exploration of the real optimizer; cost, gradient, clock and "
    "random generator are owned by the harness); trusts the harness's "
    "reference bookkeeping; bounded in deviations and iterations.")
GEO_TECH = ("explicit-state model checking: exhaustive bounded enumeration of "
            "operation sequences on the real code against analytic reference "
            "models")
OPT_TECH = ("stateless model checking: exhaustive deviation-bounded "
            "exploration of environment answers to the real optimizer, against "
            "a reference monitor")


def P(id, title, statement, over, text, why, files, mech, tech, note,
      observe=(), state=()):
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s))
                      for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    }, tech, note


PROPERTIES = [
    P("C01", "Every point an operation produces lies on the manifold",
      "Whatever sequence of random_point, retraction, exp and pair_mean calls "
      "a user makes, starting from valid points and using tangent vectors of "
      "any practical length, every resulting point has the documented shape "
      "and number type and satisfies the manifold's defining constraint to "
      "numerical accuracy.",
      ["inputs", "histories", "configurations"],
      GEO_BOUND + "; histories up to depth 3 (4 thorough) and trajectories of "
      "60 (200) moves", GEO_TESTS, ALLMAN,
      [("retraction / exp / random_point / pair_mean", MAN)],
      GEO_TECH, GEO_NOTE, ["return value of each operation"]),
    P("C02", "Tangent vectors: projection, embedding and generators",
      "At every point, projection is the linear map that keeps tangent "
      "vectors, annihilates the complement of the tangent space and always "
      "returns a tangent vector; to_tangent_space maps nearly tangent vectors "
      "to tangent ones and leaves tangent ones alone; embedding gives the "
      "ambient representation. zero_vector is zero, and random_tangent_vector "
      "is tangent with unit norm and reaches every tangent direction.",
      ["inputs", "configurations"], GEO_BOUND, GEO_TESTS, ALLMAN,
      [("projection / to_tangent_space / embedding", MAN)],
      GEO_TECH, GEO_NOTE),
    P("C03", "inner_product and norm are the documented Riemannian metric",
      "At every point and for all pairs of tangent vectors, inner_product is "
      "a real, symmetric, bilinear, positive definite form that equals the "
      "metric documented for that manifold, and norm is its square root at "
      "every magnitude, including zero.",
      ["inputs", "configurations"], GEO_BOUND, GEO_TESTS, ALLMAN,
      [("inner_product / norm", MAN)], GEO_TECH, GEO_NOTE),
    P("C04", "exp follows geodesics",
      "exp(x, v) is the end point of the geodesic that leaves x with velocity "
      "v, for vectors from tiny to beyond the injectivity radius and of both "
      "signs, and following a geodesic in two stages gives the same point as "
      "in one. Where a manifold documents that no exponential map is "
      "available, exp warns and returns the retraction.",
      ["inputs", "histories", "configurations"], GEO_BOUND, GEO_TESTS, ALLMAN,
      [("exp", MAN), ("RetrAsExpMixin", MAN + "manifold.py")],
      GEO_TECH, GEO_NOTE),
    P("C05", "log inverts exp",
      "For points within the injectivity radius, log(x, y) is the tangent "
      "vector at x with exp(x, log(x, y)) = y and length dist(x, y), and "
      "log(x, exp(x, v)) = v for sufficiently short v. log(x, x) is zero, for "
      "coincident, nearly coincident and far apart points alike.",
      ["inputs", "configurations"], GEO_BOUND + "; all ordered point pairs",
      GEO_TESTS, ALLMAN, [("log / exp / dist", MAN)], GEO_TECH, GEO_NOTE),
    P("C06", "dist is the geodesic distance and a metric",
      "dist(x, y) is a real, finite, non-negative number that equals the "
      "length of the shortest geodesic, is zero exactly when the points "
      "coincide, is symmetric and satisfies the triangle inequality, for "
      "coincident, nearby, far apart and antipodal points.",
      ["inputs", "configurations"],
      GEO_BOUND + "; all ordered pairs and triples of the point alphabet",
      GEO_TESTS, ALLMAN, [("dist", MAN)], GEO_TECH, GEO_NOTE),
    P("C07", "retraction is a retraction",
      "retraction(x, 0) is x, and to first order retraction(x, t v) moves "
      "along v, at every point and in every tangent direction. Where the "
      "library documents or uses a second-order retraction, it agrees with "
      "the geodesic to second order.",
      ["inputs", "configurations"],
      GEO_BOUND + "; step sizes over several decades", GEO_TESTS, ALLMAN,
      [("retraction", MAN), ("ExpAsRetrMixin", MAN + "manifold.py")],
      GEO_TECH, GEO_NOTE),
    P("C08", "transport moves tangent vectors consistently",
      "transport(x, y, v) is a tangent vector at y that depends linearly on "
      "v, equals v when y is x, and tends to v as y tends to x. Where the "
      "library documents parallel transport or an isometric transport, it "
      "preserves inner products, and parallel transport along the connecting "
      "geodesic carries its velocity along.",
      ["inputs", "configurations"], GEO_BOUND + "; all ordered point pairs",
      GEO_TESTS, ALLMAN, [("transport", MAN)], GEO_TECH, GEO_NOTE),
    P("C09", "euclidean_to_riemannian_gradient represents the differential",
      "For every Euclidean gradient a cost can have, the converted vector is "
      "tangent and its inner product with every tangent vector equals the "
      "directional derivative of the cost in that direction.",
      ["inputs", "configurations"],
      GEO_BOUND + "; every ambient basis gradient for embedded manifolds, "
      "invariant costs for quotients", GEO_TESTS, ALLMAN,
      [("euclidean_to_riemannian_gradient", MAN)], GEO_TECH, GEO_NOTE),
    P("C10", "euclidean_to_riemannian_hessian is the Riemannian Hessian",
      "For a cost with given Euclidean gradient and Hessian, the converted "
      "Hessian-vector product is tangent, linear and self-adjoint with "
      "respect to the metric, and its quadratic form equals the second "
      "derivative of the cost along geodesics.",
      ["inputs", "configurations"], GEO_BOUND + "; all pairs of basis vectors",
      GEO_TESTS, ALLMAN, [("euclidean_to_riemannian_hessian", MAN)],
      GEO_TECH, GEO_NOTE),
    P("C11", "Manifold metadata is truthful",
      "dim is an integer equal to the dimension of the tangent space at every "
      "point, num_values is the number of arrays in the representation of a "
      "point, and point_layout describes how these are grouped; "
      "typical_dist, where available, is a positive finite scale.",
      ["configurations"],
      "all classes over grids of constructor arguments, including stacks, "
      "squares, ranks at the limits and products", GEO_TESTS, ALLMAN,
      [("Manifold.__init__, dim, num_values, point_layout, typical_dist",
        MAN)], GEO_TECH, GEO_NOTE),
    P("C12", "Product manifolds act componentwise",
      "Every operation of a product manifold equals applying the "
      "corresponding operation of each factor to its component, with inner "
      "products added, distances combined as root sum of squares and "
      "dimensions added; arithmetic on its tangent vectors is componentwise.",
      ["inputs", "configurations"],
      "all ordered pairs (thorough: triples) of factors from the factor "
      "alphabet, all operations, all points of the alphabet", GEO_TESTS,
      [MAN + "product.py", MAN + "manifold.py"],
      [("Product._dispatch / _ProductTangentVector", MAN + "product.py")],
      GEO_TECH, GEO_NOTE),
    P("C13", "Stacked manifolds act slicewise",
      "On a manifold of k stacked copies every operation equals the "
      "single-copy operation applied to each slice, with inner products "
      "added and distances combined as root sum of squares, for every k, "
      "including k equal to one of the matrix sizes and slices that are "
      "individually extreme.",
      ["inputs", "configurations"],
      "all classes with a k parameter, k in 2..4, sizes chosen to collide "
      "with k, all slice combinations from the point alphabet", GEO_TESTS,
      [MAN + f for f in ("grassmann.py", "stiefel.py", "group.py",
                         "positive.py", "positive_definite.py",
                         "hyperbolic.py", "euclidean.py")],
      [("axis handling in every operation", MAN),
       ("tools.multi", "src/pymanopt/tools/multi.py")], GEO_TECH, GEO_NOTE),
    P("C14", "Results do not depend on the representative of a point",
      "On quotient manifolds and factored representations, replacing a point "
      "by another representative of the same point (and carrying tangent "
      "vectors along) leaves inner products, norms and distances unchanged "
      "and gives equivalent results for projection, retraction, exp, log, "
      "transport and derivative conversion.",
      ["inputs", "configurations"],
      "Grassmann, PSD fixed rank, elliptope and fixed-rank classes, all "
      "listed group elements per slice, all points, basis directions",
      "No test changes representative.", [MAN + f for f in (
          "grassmann.py", "psd.py", "fixed_rank.py")],
      [("horizontal-space formulas", MAN)], GEO_TECH, GEO_NOTE),
    P("C15", "pair_mean is the midpoint",
      "pair_mean(x, y) is equidistant from x and y at half their distance, "
      "does not depend on the order of its arguments, and pair_mean(x, x) "
      "is x.",
      ["inputs", "configurations"], "all ordered pairs of the point alphabet "
      "outside each other's cut locus", GEO_TESTS, ALLMAN,
      [("pair_mean", MAN)], GEO_TECH, GEO_NOTE),
    P("C16", "Geometric operations are pure",
      "No manifold operation modifies its arguments or depends on earlier "
      "calls: repeating a call in any order gives the same answer, read-only, "
      "non-contiguous and differently laid out arrays give the same answer as "
      "plain ones, and results do not change when other calls are made. "
      "Random points and vectors are reproducible from numpy's seed and vary "
      "from draw to draw.",
      ["inputs", "histories", "configurations"],
      "all classes, all operations, all ordered pairs of operations, all "
      "layout variants of each argument",
      "No test looks at an argument after the call or calls twice.",
      ALLMAN, [("functional style of the manifold classes", MAN)],
      GEO_TECH, GEO_NOTE),
    P("C17", "Automatic gradients equal the true Euclidean gradient",
      "For every backend and argument layout, the gradient generated for a "
      "cost function that depends on at least one argument equals the true "
      "Euclidean gradient in every argument, with the shape and number type "
      "of the argument, including complex arguments, arguments the cost "
      "does not use, and repeated evaluation.",
      ["inputs", "configurations", "programs"],
      "every backend x every argument layout up to three arguments (incl. "
      "variadic) x a grammar of cost terms x points",
      "The tests use one cost per layout and skip unused and mixed arguments.",
      ["src/pymanopt/autodiff/__init__.py"] + [
          f"src/pymanopt/autodiff/backends/_{b}.py"
          for b in ("autograd", "jax", "pytorch", "tensorflow", "numpy",
                    "backend")],
      [("generate_gradient_operator", "src/pymanopt/autodiff/backends/")],
      "explicit-state model checking: exhaustive enumeration of bounded cost "
      "programs and argument layouts on the real backends against analytic "
      "derivatives",
      "Exhaustive over the program grammar and layouts within the bound, on "
      "the real backends; trusts the analytic derivatives of the terms."),
    P("C18", "Automatic Hessian-vector products equal the true ones",
      "For every backend that generates Hessians and every argument layout, "
      "the Hessian operator generated for a cost function that depends on "
      "at least one argument returns the true directional derivative of the "
      "Euclidean gradient, linear in the direction, including costs that "
      "are linear or do not use some argument.",
      ["inputs", "configurations", "programs"],
      "every backend x every argument layout up to three arguments x a "
      "grammar of cost terms x points x a basis of directions",
      "The tests use one cost per layout and skip linear and unused arguments.",
      ["src/pymanopt/autodiff/__init__.py"] + [
          f"src/pymanopt/autodiff/backends/_{b}.py"
          for b in ("autograd", "jax", "pytorch", "tensorflow", "numpy",
                    "backend")],
      [("generate_hessian_operator", "src/pymanopt/autodiff/backends/")],
      "explicit-state model checking: exhaustive enumeration of bounded cost "
      "programs and argument layouts on the real backends against analytic "
      "derivatives",
      "Exhaustive over the program grammar and layouts within the bound, on "
      "the real backends; trusts the analytic derivatives of the terms."),
    P("C19", "Problem passes arguments and derivatives faithfully",
      "A problem calls user functions with the components of the point in the "
      "manifold's layout and its cost, gradients and Hessian take and return "
      "values in the structure of the manifold; Riemannian derivatives are the "
      "converted Euclidean ones unless the user supplied Riemannian ones, "
      "which are used as given. Repeated and interleaved use gives the same "
      "values.",
      ["inputs", "configurations", "histories"],
      "all layouts (array, tuple, products nested with fixed rank) x which "
      "derivatives are user supplied x all orders of access",
      "The tests cover three layouts with one supplied derivative each.",
      ["src/pymanopt/core/problem.py", "src/pymanopt/autodiff/__init__.py",
       MAN + "product.py"],
      [("argument flattening and grouping", "src/pymanopt/core/problem.py")],
      "explicit-state model checking: exhaustive enumeration of problem "
      "configurations and access histories against a reference",
      "Exhaustive over layouts, supplied derivatives and access orders within "
      "the bound; trusts the reference bookkeeping."),
    P("C20", "Misuse is rejected and problems are immutable",
      "Invalid constructor arguments (sizes, ranks and counts beyond the "
      "documented limits, wrong types), incompatible or undecorated "
      "functions, derivatives or points of the wrong structure, conflicting "
      "derivatives and attempts to reassign a problem's manifold or "
      "functions raise an error instead of being accepted, while every "
      "valid combination is accepted.",
      ["inputs", "configurations"],
      "grids of constructor arguments around every documented limit; all "
      "combinations of supplied functions; all signatures up to three "
      "parameters",
      "The tests try a few of the invalid combinations.",
      ["src/pymanopt/core/problem.py", "src/pymanopt/autodiff/__init__.py",
       "src/pymanopt/optimizers/optimizer.py"] + ALLMAN,
      [("argument validation", "constructors")],
      "explicit-state model checking: exhaustive enumeration of bounded "
      "configurations against a validity predicate",
      "Exhaustive over the stated argument grids; trusts the validity "
      "predicate written from the documentation."),
    P("C21", "Descent methods never return something worse",
      "Steepest descent, conjugate gradient and trust regions never accept an "
      "iterate whose cost exceeds the previous one, so the reported cost is at "
      "most the cost of the starting point, whatever values the cost function "
      "takes, including infinite or NaN values away from the start.",
      ["inputs", "histories", "fault_sequences"],
      "three optimizers x line searches / beta rules x manifolds x every "
      "adversarial answer sequence with up to 2 (3) deviations", OPT_TESTS,
      [OPT + f for f in ("steepest_descent.py", "conjugate_gradient.py",
                         "trust_regions.py", "line_search.py")],
      [("acceptance tests", OPT)], OPT_TECH, OPT_NOTE),
    P("C22", "The result describes the returned point",
      "In every optimizer's result the point lies on the manifold, cost is "
      "the cost function's value at that point, gradient_norm (if reported) is "
      "the Riemannian gradient norm there, and the iteration and evaluation "
      "counts, step size, time and stopping reason are those of the run; "
      "population methods return the best point they report.",
      ["inputs", "histories", "fault_sequences", "configurations"],
      "five optimizers x manifolds x budgets x adversarial answers", OPT_TESTS,
      [OPT + "optimizer.py", OPT + "steepest_descent.py",
       OPT + "conjugate_gradient.py", OPT + "trust_regions.py",
       OPT + "nelder_mead.py", OPT + "particle_swarm.py"],
      [("OptimizerResult construction", OPT + "optimizer.py")],
      OPT_TECH, OPT_NOTE),
    P("C23", "Optimizers stop when and only when a criterion is met",
      "A run ends as soon as one of its stopping criteria (time, "
      "iterations, gradient norm, step size, cost evaluations) holds at an "
      "iterate, never before, and names a criterion that really holds. "
      "Started at a critical point, or arriving at one where the gradient "
      "vanishes exactly, a gradient-based optimizer stops there and returns "
      "that point, whatever its gradient threshold.",
      ["inputs", "histories", "fault_sequences", "configurations"],
      "five optimizers x all budget combinations from a small alphabet x clock "
      "schedules x adversarial answers", OPT_TESTS,
      [OPT + "optimizer.py", OPT + "steepest_descent.py",
       OPT + "conjugate_gradient.py", OPT + "trust_regions.py",
       OPT + "nelder_mead.py", OPT + "particle_swarm.py"],
      [("stopping criterion check", OPT + "optimizer.py")], OPT_TECH,
      OPT_NOTE),
    P("C24", "Runs are independent of each other",
      "A run is a function of the problem, the start, the options and the "
      "random seed only: repeating it on a fresh or already used optimizer, "
      "after any other run, interleaved with another optimizer or with the "
      "same line searcher object, gives the same result, and no run modifies "
      "the initial point, the caller's lists or options.",
      ["histories", "configurations"],
      "all histories of up to 2 (3) runs over a set of problems of different "
      "dimension for every optimizer", "No test reuses an optimizer object.",
      [OPT + f for f in ("optimizer.py", "steepest_descent.py",
                         "conjugate_gradient.py", "trust_regions.py",
                         "nelder_mead.py", "particle_swarm.py",
                         "line_search.py")],
      [("per-run state", OPT)], OPT_TECH, OPT_NOTE),
    P("C25", "Line searches return what they promise",
      "A line search returns a step length and the point that retracting "
      "along the direction by that step gives; the step is either zero with "
      "the point unchanged or yields a cost no larger than the starting cost "
      "and satisfies the sufficient-decrease rule unless the evaluation "
      "budget ran out, for every cost behaviour and every history of calls on "
      "the same searcher.",
      ["inputs", "histories", "fault_sequences"],
      "both line searchers x parameter grids x all answer sequences over a "
      "small cost alphabet x call histories", "The line searches have no "
      "direct tests.", [OPT + "line_search.py"],
      [("BackTrackingLineSearcher / AdaptiveLineSearcher",
        OPT + "line_search.py")], OPT_TECH, OPT_NOTE),
    P("C26", "Trust regions follow the trust-region rules",
      "Every step trust regions propose stays within the current trust- "
      "region radius; the radius stays positive and never exceeds its "
      "maximum; steps are accepted, radii shrunk and enlarged exactly "
      "according to the ratio of actual to predicted decrease; and the step "
      "is the one of truncated conjugate gradients (in the preconditioner's "
      "norm if there is one), ended at the documented residual target, at "
      "the boundary or at the limits on inner iterations, so that it "
      "decreases the model at least as much as the steepest-descent step.",
      ["inputs", "histories", "fault_sequences"],
      "quadratic models with all sign patterns of curvature x radii x option "
      "grids x adversarial cost answers", OPT_TESTS, [OPT + "trust_regions.py"],
      [("outer loop and truncated CG", OPT + "trust_regions.py")],
      OPT_TECH, OPT_NOTE),
    P("C27", "Conjugate gradient uses the documented direction updates",
      "With each beta rule the search directions of conjugate gradient are "
      "those of the documented formula, built from transported "
      "(preconditioned) gradients and directions and with the documented "
      "restarts, so every direction handed to the line search is a descent "
      "direction or the negative (preconditioned) gradient.",
      ["inputs", "histories", "configurations"],
      "all beta rules x Powell thresholds x manifolds x preconditioners x "
      "step-length answers of an enumerated line search",
      "The tests only look at the end point of CG runs.",
      [OPT + "conjugate_gradient.py"],
      [("beta rules and restarts", OPT + "conjugate_gradient.py")],
      OPT_TECH, OPT_NOTE),
    P("C28", "Nelder-Mead makes the documented simplex moves",
      "Every Nelder-Mead iteration performs the documented reflection, "
      "expansion, contraction or shrink for the ordering of the cost "
      "values, about the centroid (to the accuracy of its iterative "
      "computation) of all points but the worst, keeps a simplex of "
      "dimension + 1 points on the manifold, and the best cost never "
      "increases.",
      ["inputs", "histories", "fault_sequences"],
      "all orderings (incl. ties and infinite values) of adversarial cost "
      "answers within the bound, in lockstep with a reference implementation",
      OPT_TESTS, [OPT + "nelder_mead.py"],
      [("simplex update", OPT + "nelder_mead.py")], OPT_TECH, OPT_NOTE),
    P("C29", "Particle swarm keeps its personal and global bests",
      "The particle swarm's answer is a point it evaluated, with the "
      "smallest cost ever evaluated; the best cost never increases over "
      "iterations; and all particles stay on the manifold and move "
      "according to the documented velocity rule: inertia decreasing "
      "linearly from 0.9 to 0.4 over the iteration budget, plus randomly "
      "weighted attraction (nostalgia and social coefficients) to the "
      "particle's own and to the global best position.",
      ["inputs", "histories", "fault_sequences"],
      "small swarms x adversarial cost answers x owned random numbers, in "
      "lockstep with a reference implementation", OPT_TESTS,
      [OPT + "particle_swarm.py"],
      [("swarm update", OPT + "particle_swarm.py")], OPT_TECH, OPT_NOTE),
    P("C30", "The log is a faithful record of the run",
      "With logging enabled the result's log holds exactly one entry per "
      "iteration of the run, numbered consecutively, with the time, "
      "iterate, cost and (for gradient-based methods) gradient norm at that "
      "iterate, in order and unchanged afterwards, together with the "
      "optimizer's name, stopping limits and direction rule; with logging "
      "disabled it holds no iterations.",
      ["histories", "configurations"],
      "every optimizer x log verbosity x iteration budgets x problems x "
      "histories of runs", "One test checks the number of entries for CG.",
      [OPT + f for f in ("optimizer.py", "steepest_descent.py",
                         "conjugate_gradient.py", "trust_regions.py",
                         "nelder_mead.py", "particle_swarm.py")],
      [("log entries", OPT + "optimizer.py")], OPT_TECH, OPT_NOTE),
    P("C31", "Gradient-based optimizers converge to critical points",
      "On well conditioned smooth problems with a compact sublevel set "
      "every gradient-based optimizer, with every line search and direction "
      "rule, reaches a point whose Riemannian gradient is small within its "
      "default budget, and from generic starting points the minimum. "
      "(Conjugate gradient rules known to jam are used with their "
      "documented restarts.)",
      ["inputs", "configurations"],
      "every gradient-based optimizer and option x small problems on every "
      "manifold class x a grid of starts", OPT_TESTS,
      [OPT + f for f in ("steepest_descent.py", "conjugate_gradient.py",
                         "trust_regions.py", "line_search.py")] + ALLMAN,
      [("whole optimizer stack", OPT)],
      "explicit-state model checking: exhaustive bounded enumeration of "
      "configurations and starts, running the real optimizers",
      "Exhaustive over the listed configurations, problems and starts; "
      "convergence elsewhere is not claimed."),
    P("C32", "Batched matrix tools equal the per-matrix operation",
      "Every batched linear-algebra helper gives, for single matrices and for "
      "stacks, real or complex, exactly what the textbook operation gives on "
      "each matrix, with the shape of the input, and does not modify it.",
      ["inputs", "configurations"],
      "every public helper x batch sizes 0..3 (incl. equal to matrix sizes) x "
      "matrix sizes 1..4 x real/complex x special matrices",
      "The tests use one random stack per helper.",
      ["src/pymanopt/tools/multi.py"],
      [("multi* helpers", "src/pymanopt/tools/multi.py")], GEO_TECH,
      GEO_NOTE),
    P("C33", "Derivative checkers tell right from wrong derivatives",
      "For costs and errors of moderate size, the gradient and Hessian "
      "checkers report second- and third-order agreement for correct "
      "derivatives, and report the tell-tale lower order or residual for "
      "every wrong one; check_retraction tells the order of a retraction; "
      "and all slopes and residual figures they print are the true ones.",
      ["inputs", "configurations"],
      "every manifold class x correct derivatives and every mutation from a "
      "catalogue (scale, sign, missing term, non-tangent, non-symmetric, "
      "constant offset)", "The diagnostics have no tests.",
      ["src/pymanopt/tools/diagnostics.py"],
      [("check_gradient / check_hessian / check_retraction / identify_linear_"
        "piece", "src/pymanopt/tools/diagnostics.py")], GEO_TECH, GEO_NOTE),
    P("C34", "Verbosity changes only what is printed",
      "Choosing any verbosity or log verbosity changes neither the sequence "
      "of evaluations nor the result; verbosity 0 prints nothing, verbosity "
      "1 announces the stopping reason (and gradient-based optimizers the "
      "start), and verbosity 2 and above print exactly one well-formed row "
      "per iteration whose numbers are the iterate's. The column printer "
      "prints every value formatted as asked, in columns under its header.",
      ["configurations", "histories"],
      "every optimizer x verbosity x log verbosity x problems x budgets, and "
      "all printer column sets over an alphabet of values",
      "No test compares runs across verbosity or reads the output.",
      [OPT + f for f in ("optimizer.py", "steepest_descent.py",
                         "conjugate_gradient.py", "trust_regions.py",
                         "nelder_mead.py", "particle_swarm.py")]
      + ["src/pymanopt/tools/printer.py"],
      [("printers", "src/pymanopt/tools/printer.py")], OPT_TECH, OPT_NOTE),
    P("C35", "Errors of user functions end a run cleanly",
      "When a user-supplied function (cost, gradient, Hessian, preconditioner, "
      "manifold operation) raises, or the user interrupts it, at any "
      "evaluation of a run or of a derivative check, that very exception "
      "reaches the caller; process-wide settings, the initial point and the "
      "problem are as before, and running again gives the same result as if "
      "the failure had never happened. Runs that succeed leave process-wide "
      "settings alone, too.",
      ["inputs", "histories", "crash_points", "fault_sequences"],
      "every optimizer configuration x manifolds x every kind of call x every "
      "index of the failing call (quick: the first eight, the middle and the "
      "last two) x twenty types of errors",
      "No test lets a user function fail.",
      [OPT + "optimizer.py", OPT + "steepest_descent.py",
       OPT + "conjugate_gradient.py", OPT + "trust_regions.py",
       OPT + "nelder_mead.py", OPT + "particle_swarm.py",
       OPT + "line_search.py", "src/pymanopt/core/problem.py",
       "src/pymanopt/tools/diagnostics.py"],
      [("absence of handlers around user calls", OPT)],
      "stateless model checking: exhaustive fault injection at every call of "
      "user code in bounded runs of the real optimizer",
      "Exhaustive over the failing call and the type of the error in the "
      "stated runs; one failure per run."),
    P("C36", "Backends are optional and independent",
      "pymanopt can be imported and used with any subset of the autodiff "
      "packages installed: functions of the available backends have the right "
      "double precision derivatives whatever else is installed, imported or "
      "used before, decorating with a missing backend is rejected, and "
      "optimizers run on plain numpy functions without any backend; a plain "
      "numpy function never gets a made-up derivative.",
      ["configurations", "histories"],
      "all subsets of the four packages, missing or broken, imported before "
      "or after pymanopt, all backends used in two orders in one process",
      "The tests run in one environment with all packages installed.",
      ["src/pymanopt/__init__.py", "src/pymanopt/function.py",
       "src/pymanopt/autodiff/__init__.py"] + [
          f"src/pymanopt/autodiff/backends/_{b}.py"
          for b in ("autograd", "jax", "pytorch", "tensorflow", "numpy",
                    "backend")],
      [("guarded imports and is_available",
        "src/pymanopt/autodiff/backends/")],
      "explicit-state model checking: exhaustive enumeration of the "
      "installation states, one real process per state",
      "Exhaustive over the subsets of packages; trusts that blocking the "
      "import stands for a missing or broken installation."),
    P("C37", "The correctness tools convert derivatives correctly",
      "For every submanifold of a Euclidean space given by its orthogonal "
      "projector, riemannian_gradient and the converters of "
      "pymanopt.tools.testing give the Riemannian gradient and the Riemannian "
      "Hessian-vector product of every cost, at every point and along every "
      "tangent vector.",
      ["inputs", "configurations"],
      "Euclidean spaces, spheres, Stiefel, Grassmann and oblique manifolds "
      "of one to three array dimensions, six costs, every ambient basis "
      "gradient, every tangent basis vector",
      "The tests use these tools as the reference at one random point and "
      "never test the tools themselves.",
      ["src/pymanopt/tools/testing.py"],
      [("converters", "src/pymanopt/tools/testing.py")], GEO_TECH, GEO_NOTE),
    P("C38", "Equivalent formulations of a problem give equivalent runs",
      "Optimizers see a problem only through its manifold: isometric "
      "formulations (arrays reshaped, coordinates rotated or measured in "
      "other units, complex instead of real numbers, products wrapped, "
      "reordered or stacked, the same manifold offered by two classes) lead "
      "to the same sequence of points, costs, step sizes, gradient norms, "
      "log entries and stopping reasons up to round-off.",
      ["inputs", "configurations", "histories", "fault_sequences"],
      "33 isometries x optimizer configurations (quick: eight on all pairs, "
      "all on two) x answer sequences with up to 1 (2) deviations", OPT_TESTS,
      [OPT + f for f in (
          "optimizer.py", "steepest_descent.py", "conjugate_gradient.py",
          "trust_regions.py", "nelder_mead.py", "particle_swarm.py",
          "line_search.py")] + ALLMAN + ["src/pymanopt/core/problem.py"],
      [("use of manifold operations instead of array operations", OPT)],
      OPT_TECH, OPT_NOTE),
    P("C39", "An option left out means its published default",
      "Leaving any options out of an optimizer, a line searcher, a run or a "
      "manifold, or giving them by position in the published order, means "
      "exactly the same as naming the published defaults: the same points, "
      "costs, stopping reason, log and printed text. The published defaults "
      "are 1000 s, 1000 iterations, gradient norm 1e-6, step size 1e-10, 5000 "
      "cost evaluations, verbosity 2 and no log; Hestenes-Stiefel without "
      "restarts; trust regions with kappa 0.1, theta 1, rho_prime 0.1, "
      "regularization 1e3 and at least one inner step; Nelder-Mead with "
      "factors 1, 2 and 0.5 and, without budgets, max(1000, 2 d) evaluations "
      "and max(2000, 4 d) iterations in dimension d; particle swarm with 1.4 "
      "twice, max(5000, 2 d) evaluations, max(500, 4 d) iterations and "
      "min(40, 10 d) particles; backtracking with "
      "contraction 0.5, optimism 2, sufficient decrease 1e-4, 25 trials and "
      "first step 1; adaptive search with 0.5, 0.5, 10 and 1; stacks of one, "
      "QR retractions and no parallel transport.",
      ["configurations", "inputs", "fault_sequences"],
      "every set of at most two options left to be given (thorough: three or "
      "all), every prefix by position, five optimizers in nine scenarios "
      "(each stopping rule, misbehaving costs, costs at the edge of every "
      "acceptance test, repeated runs), two line searchers, 14 manifolds",
      "Tests construct optimizers with a few options and never compare runs.",
      [OPT + f for f in (
          "optimizer.py", "steepest_descent.py", "conjugate_gradient.py",
          "trust_regions.py", "nelder_mead.py", "particle_swarm.py",
          "line_search.py")] + [MAN + f for f in (
              "stiefel.py", "group.py", "grassmann.py", "positive.py",
              "positive_definite.py", "hyperbolic.py", "euclidean.py",
              "complex_circle.py")],
      [("constructors and their defaults", OPT + "optimizer.py"),
       ("handing options on to the base class", OPT)],
      OPT_TECH, OPT_NOTE),
    P("C40", "Runs do not depend on where derivatives come from",
      "An optimizer goes through the same points, costs and gradient norms, "
      "evaluation counts and results, up to rounding, whether the derivatives "
      "of the cost come from any automatic backend, are given by hand as "
      "Euclidean or as Riemannian ones, or are mixed, one given and the other "
      "automatic. This holds for every backend and manifold, for real, complex "
      "and several arguments, and for points that are arrays or sequences of "
      "arrays.",
      ["inputs", "configurations", "programs", "operation_histories"],
      "every backend x 18 manifolds (products, stacks, complex, fixed rank) x "
      "a grammar of cost terms x six optimizers x up to five sources of "
      "derivatives; every iteration of each run against the run on exact ones",
      "Tests run each backend on single evaluations and optimizers with one "
      "source of derivatives, never the same run on several.",
      ["src/pymanopt/autodiff/__init__.py"] + [
          f"src/pymanopt/autodiff/backends/_{b}.py"
          for b in ("autograd", "jax", "pytorch", "tensorflow", "numpy")] + [
          "src/pymanopt/core/problem.py"] + [OPT + f for f in (
              "steepest_descent.py", "conjugate_gradient.py",
              "trust_regions.py", "particle_swarm.py")],
      [("combining given and automatic derivatives",
        "src/pymanopt/core/problem.py"),
       ("derivatives from the backends",
        "src/pymanopt/autodiff/backends/")],
      OPT_TECH,
      "Exhaustive over the stated programs, manifolds, optimizers and sources; "
      "runs are followed for five iterations, compared to 1e-6; trusts the "
      "hand-derived derivatives of the terms."),
]
