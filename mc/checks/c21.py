"""Descent methods never return something worse."""
import numpy as np

from .. import opt

ID = "C21"
LEVEL = "model_checking"
RULE = (
    "state = (optimizer configuration, manifold, answer sequence); every "
    "sequence of cost answers with up to D deviations {+inf, NaN, +1e3, tie, "
    "slightly lower, slightly higher, much lower} from the true cost among "
    "the first K fresh evaluations after the start; non-trivial = the run "
    "left its start or met a deviation"
)
ASSUMPTIONS = opt.ASSUME
FEW = ("plane", "sphere", "product", "stiefel")
MORE = ("line", "pd", "grassmann", "circle", "hyperbolic", "unitary",
        "oblique", "fixedrank", "elliptope", "mixed", "product1", "own")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for config in opt.DESCENT:
        for name in FEW + MORE:
            if not opt.supports(name, config):
                continue
            few = name in FEW
            d, k = (1, 12)
            if few:
                d, k = (2, 5)
            if deep:
                d, k = ((3, 6) if name in ("plane", "sphere") else (2, 9))
            out.append({"id": f"{config}/{name}", "config": config,
                        "inst": name, "d": d, "k": k})
    return out


def run_case(case, rec):
    config, name = case["config"], case["inst"]
    label = f"{config}/{name}"
    for choices, out in opt.adversarial_runs(
            rec, name, config, deviations=case["d"], depth=case["k"],
            limit=200000):
        w = out.world
        r = out.result
        first = w.first
        rec.outcome(r.stopping_criterion.split(" reached")[0])
        rec.check(
            r.cost <= first, f"{label}/result-worse-than-start",
            lambda: f"answers {choices}: cost {r.cost}, start {first}",
            nontrivial=choices)
        try:
            there = w.value(r.point)
        except KeyError:
            rec.fail(f"{label}/result-not-evaluated",
                     f"answers {choices}: {r.point!r} was never evaluated")
            continue
        rec.check(
            there <= first, f"{label}/point-worse-than-start",
            lambda: f"answers {choices}: the cost at the returned point is "
            f"{there}, at the start {first}", nontrivial=choices)
        # the accepted iterates, as reported by the log
        if not out.log:
            continue
        previous = None
        for point, cost in zip(out.log["point"], out.log["cost"]):
            value = w.memo.get(opt.key(point), np.nan)
            if previous is not None:
                rec.check(
                    value <= previous, f"{label}/iterate-worse",
                    lambda: f"answers {choices}: accepted {value} after "
                    f"{previous}", nontrivial=choices)
            previous = value
    rec.sample({"config": label, "choices": list(choices)})
