"""The result describes the returned point and the run."""
import numpy as np

from .. import opt, zoo

ID = "C22"
LEVEL = "model_checking"
RULE = (
    "state = (optimizer configuration, manifold, budget, answer sequence); "
    "every sequence of up to D deviating cost answers among the first K fresh "
    "evaluations, for every budget of the alphabet; every field of the result "
    "is recomputed from the recorded environment"
)
ASSUMPTIONS = opt.ASSUME
BUDGETS = {
    "iterations1": {"max_iterations": 1},
    "iterations2": {"max_iterations": 2},
    "iterations7": {"max_iterations": 7},
    "evaluations9": {"max_iterations": 50, "max_cost_evaluations": 9},
    "time": {"max_iterations": 50, "max_time": 30 * 2.0**-10},
    "gradient": {"max_iterations": 60, "min_gradient_norm": 0.3},
    "step": {"max_iterations": 60, "min_step_size": 0.2},
    "converge": {"max_iterations": 60},
}
NAMES = ("plane", "sphere", "product", "stiefel", "pd", "grassmann", "circle",
         "hyperbolic", "oblique", "fixedrank", "mixed", "unitary", "line",
         "elliptope", "product1", "own")
REASONS = ("max time", "max iterations", "min grad norm", "min step_size",
           "max cost evals")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for config in opt.CONFIGS:
        for name in NAMES:
            if not opt.supports(name, config):
                continue
            slow = config[:2] == "nm" and name not in ("plane", "line")
            for b in BUDGETS:
                if slow and b == "converge":
                    continue
                if name not in NAMES[:3] and b not in (
                        "iterations7", "evaluations9") and not deep:
                    continue
                short = b in ("iterations2", "iterations7", "evaluations9")
                d = 1 if short else 0
                k = 4 if slow else 8
                if deep:
                    d = 1
                    k = 6 if slow else 25
                    if name in ("plane", "sphere") and short and not slow:
                        d, k = 2, 9
                out.append({"id": f"{config}/{name}", "config": config,
                            "inst": name, "budget": b, "d": d, "k": k})
    return out


def run_case(case, rec):
    config, name = case["config"], case["inst"]
    label = f"{config}/{name}"
    inst = opt.inst(name)
    records = []
    for choices, out in opt.adversarial_runs(
            rec, name, config, deviations=case["d"], depth=case["k"],
            options=BUDGETS[case["budget"]], watch=("retraction",),
            limit=100000):
        w, r = out.world, out.result
        ctx = (case["budget"], choices)

        def bad(message):
            return lambda: f"{ctx}: {message()}"

        rec.outcome(r.stopping_criterion.split(" reached")[0])
        rec.check(inst.on_manifold(r.point, 1e-7), f"{label}/point",
                  bad(lambda: f"{r.point!r} is off the manifold"),
                  nontrivial=ctx)
        there = w.memo.get(opt.key(r.point))
        rec.check(
            there is not None and opt.close(there, r.cost, 1e-13),
            f"{label}/cost",
            bad(lambda: f"cost {r.cost}, but the cost function answered "
                f"{there} at the returned point"), nontrivial=ctx)
        if config in opt.DESCENT:
            rec.check(r.gradient_norm is not None, f"{label}/gradient-norm",
                      bad(lambda: "no gradient norm reported"))
        if r.gradient_norm is not None:
            true = w.gnorm(r.point)
            rec.check(
                opt.close(true, r.gradient_norm, 1e-7) or
                abs(true - r.gradient_norm) <= 1e-6 * true,
                f"{label}/gradient-norm",
                bad(lambda: f"gradient norm {r.gradient_norm}, at the "
                    f"returned point it is {true}"), nontrivial=ctx)
        else:
            lowest = min(v for _, v in w.order)
            rec.check(
                r.cost == lowest, f"{label}/best",
                bad(lambda: f"cost {r.cost} but {lowest} was evaluated"),
                nontrivial=ctx)
        rec.check(
            r.cost_evaluations == out.calls, f"{label}/cost-evaluations",
            bad(lambda: f"reported {r.cost_evaluations}, made {out.calls}"),
            nontrivial=ctx)
        rec.check(
            0 <= r.time <= out.t1 - out.t0 + 1e-9
            # the first evaluations may precede the start of the clock
            and r.time >= out.t1 - out.t0 - 2.0**-10 * (
                2 if config in opt.DESCENT else len(opt.start_for(
                    inst, config))) - 1e-9,
            f"{label}/time",
            bad(lambda: f"time {r.time}, the run took {out.t1 - out.t0}"),
            nontrivial=ctx)
        limit = BUDGETS[case["budget"]]["max_iterations"]
        rec.check(
            0 <= r.iterations <= limit, f"{label}/iterations",
            bad(lambda: f"{r.iterations} iterations, limit {limit}"),
            nontrivial=ctx)
        s = r.stopping_criterion
        rec.check(
            isinstance(s, str) and sum(m in s for m in REASONS) == 1,
            f"{label}/stopping-criterion", bad(lambda: repr(s)),
            nontrivial=ctx)
        if "max iterations" in s:
            rec.check(r.iterations == limit, f"{label}/iterations",
                      bad(lambda: f"{s!r} after {r.iterations}"))
        if "after" in s and "seconds" not in s.split("after")[1].split()[1]:
            rec.check(
                int(s.split("after")[1].split()[0]) == r.iterations,
                f"{label}/stopping-criterion",
                bad(lambda: f"{s!r}, but iterations is {r.iterations}"),
                nontrivial=ctx)
        if config in opt.LINE:
            # the last accepted move is the last retraction that was
            # evaluated and kept
            moved = [(a, o) for n, a, o in w.events if n == "retraction"]
            if r.iterations <= 1:
                rec.check(
                    r.step_size is None or np.isnan(r.step_size),
                    f"{label}/step-size",
                    bad(lambda: f"no step was made, reported {r.step_size}"),
                    nontrivial=ctx)
            else:
                sizes = [inst.norm(a[0], a[1]) for a, o in moved
                         if opt.key(o) == opt.key(r.point)]
                zero = opt.same_point(moved[-1][0][0], r.point)
                ok = any(opt.close(x, r.step_size, 1e-8) for x in sizes) or (
                    zero and r.step_size == 0)
                rec.check(
                    ok, f"{label}/step-size",
                    bad(lambda: f"step size {r.step_size}; retractions "
                        f"reaching the returned point have {sizes}"),
                    nontrivial=ctx)
        if out.log:
            rec.check(
                r.iterations == out.log["iteration"][-1],
                f"{label}/iterations-log",
                bad(lambda: f"{r.iterations} reported, log ends with "
                    f"{out.log['iteration'][-1]}"))
        # iterations really made: searches / proposals / simplex updates
        records.append(r.iterations)
    rec.sample({"config": label, "budget": case["budget"],
                "iterations": records[:20]})
