"""Verbosity changes only what is printed."""
import contextlib
import io
import itertools
import re

import numpy as np

from pymanopt.tools import printer

from .. import core, geo, opt, zoo

ID = "C34"
LEVEL = "model_checking"
RULE = (
    "state = (optimizer configuration, manifold, budget, sequence of answered "
    "costs) run at every verbosity and log verbosity: the evaluations, the "
    "random stream and every result field must agree, and the text printed "
    "at each level is parsed and compared with the log; column printers: "
    "every column set over the alphabet of names, formats, paddings and "
    "values"
)
ASSUMPTIONS = opt.ASSUME + [
    "printed numbers are compared to six digits",
    "messages other than progress rows are only required from verbosity 1 on",
]
BUDGETS = {
    "iterations1": {"max_iterations": 1},
    "iterations10": {"max_iterations": 10},
    "iterations3": {"max_iterations": 3},
    "iterations0": {"max_iterations": 0},
    "unlimited": {"max_iterations": np.inf, "max_cost_evaluations": 9},
    "evaluations9": {"max_iterations": 50, "max_cost_evaluations": 9},
    "time": {"max_iterations": 50, "max_time": 30 * 2.0**-10},
    "gradient": {"max_iterations": 60, "min_gradient_norm": 0.3},
    "step": {"max_iterations": 60, "min_step_size": 0.2},
}
NAMES = ("plane", "sphere", "product", "stiefel", "pd", "grassmann",
         "hyperbolic", "fixedrank", "line", "unitary", "own")
LEVELS = [(0, 0), (0, 1), (1, 1), (2, 1), (3, 1), (2, 0), (1, 0), (3, 0)]


def cases(tier):
    deep = tier == "thorough"
    out = []
    for config in opt.CONFIGS:
        for name in NAMES:
            if not opt.supports(name, config):
                continue
            slow = config[:2] == "nm" and name not in ("plane", "line")
            main = name in NAMES[:3]
            for b in BUDGETS:
                if not main and b != "iterations10" and not deep:
                    continue
                if slow and b in ("gradient", "step", "iterations10"):
                    continue
                d = 1 if b in ("iterations3", "iterations10") and (
                    main or deep) else 0
                k = 2 if slow else 4
                if deep:
                    k = 4 if slow else 12
                    if b in ("iterations3", "iterations10") and name in (
                            "plane", "sphere") and not slow:
                        d, k = 2, 6
                out.append({"id": f"{config}/{name}", "config": config,
                            "inst": name, "budget": b, "d": d, "k": k})
            if main:
                # every start: given or drawn by the optimizer
                out.append({"id": f"{config}/{name}", "config": config,
                            "inst": name, "budget": "iterations3", "d": 0,
                            "k": 0, "random": True})
    out.append({"id": "printer", "config": None, "deep": deep, "d": 0,
                "k": 0})
    return sorted(out, key=lambda c: (c["config"] is not None, -c["d"],
                                      -c["k"]))


class Lenient(core.Chooser):
    """Replays choices; an impossible one becomes the default."""

    def choose(self, n, label=""):
        i = len(self.choices)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.choices.append(c if c < n else 0)
        return self.choices[-1]


def run_case(case, rec):
    if case["config"] is None:
        return columns(case, rec)
    config, name, label = case["config"], case["inst"], case["id"]
    inst = opt.inst(name)
    start = None if case.get("random") else opt.start_for(inst, config)
    options = BUDGETS[case["budget"]]
    costs = opt.milder if config[:2] in ("nm", "ps") else opt.adversary

    def once(chooser, level):
        world = opt.World(inst, chooser=chooser, costs=costs)
        counts = []
        world.on_cost = lambda x: counts.append(
            (world.clock.now, world.value(x)))
        out = opt.execute(
            world, opt.build(config, verbosity=level[0],
                             log_verbosity=level[1], **options),
            start=geo.copy(start))
        out.counts = counts
        out.random = np.random.random_sample()
        return out

    for choices, base in core.explore(
            lambda chooser: once(chooser, LEVELS[0]),
            deviations=case["d"], max_depth=case["k"], limit=100000):
        runs = [base] + [once(Lenient(choices), level)
                         for level in LEVELS[1:]]
        ctx = (case["budget"], case.get("random", False), choices)
        want = fingerprint(base)
        for level, out in zip(LEVELS, runs):
            rec.trace()
            rec.step(out.calls)
            rec.state((label, ctx, level))
            got = fingerprint(out)
            diff = {k: (want[k], got[k]) for k in want
                    if not same(want[k], got[k])}
            rec.check(not diff, f"{label}/independent",
                      lambda: f"{ctx}: verbosity {level} differs from "
                      f"{LEVELS[0]}: {diff}", nontrivial=(ctx, level))
            text(rec, label, config, ctx, level, out, runs[1])


def fingerprint(out):
    r, w = out.result, out.world
    return {
        "point": geo.copy(r.point), "cost": r.cost,
        "iterations": r.iterations, "stop": r.stopping_criterion,
        "evaluations": r.cost_evaluations, "step": r.step_size,
        "gradient": r.gradient_norm, "time": r.time,
        "asked": [zoo.flat(x) for x, _ in w.order],
        "calls": (w.calls, w.gcalls, w.hcalls), "random": out.random,
    }


def same(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(p, q) for p, q in zip(a, b))
    if isinstance(a, str) or a is None or isinstance(b, str) or b is None:
        return a == b
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


NUMBER = r"([+-]?(?:\d+(?:\.\d*)?(?:[eE][+-]?\d+)?|inf|nan))"


def near(printed, value, digits=6):
    p = float(printed)
    if np.isnan(p) or np.isnan(value):
        return bool(np.isnan(p) and np.isnan(value))
    if np.isinf(p) or np.isinf(value):
        return p == value
    return abs(p - value) <= 10.0 ** (1 - digits) * abs(value) + 1e-300


def text(rec, label, config, ctx, level, out, logged):
    verbosity = level[0]
    lines = out.printed.split("\n")
    r = out.result

    def check(ok, what, message):
        rec.check(ok, f"{label}/{what}", lambda: f"{ctx}, verbosity "
                  f"{verbosity}: {message()}; printed:\n{out.printed}",
                  nontrivial=(what, ctx, level))

    if verbosity == 0:
        check(out.printed == "", "silent", lambda: "verbosity 0 printed")
        return
    check(lines.count(r.stopping_criterion) == 1, "reason",
          lambda: f"expected the line {r.stopping_criterion!r} once")
    if config in opt.DESCENT:
        check(lines[0] == "Optimizing...", "start",
              lambda: "expected the line 'Optimizing...' first")
    rows = parse(config, verbosity, lines)
    if verbosity == 1:
        check(not rows, "rows", lambda: f"rows {rows} at verbosity 1")
        return
    # compare with the log of the run that kept one
    log = logged.log
    numbers, costs = list(log["iteration"]), list(log["cost"])
    norms = list(log.get("gradient_norm", []))
    times = list(log["time"])
    evals = [sum(s <= t for s, _ in logged.counts) for t in times]
    if config in opt.TRUST:
        head = [row for row in rows if "iteration" not in row]
        rows = [row for row in rows if "iteration" in row]
        check(len(head) == 1 and near(head[0]["cost"], costs[0]) and
              near(head[0]["norm"], norms[0]), "rows",
              lambda: f"first row {head}, start {costs[0]}, {norms[0]}")
        numbers, costs, norms, evals = (
            numbers[1:], costs[1:], norms[1:], evals[1:])
        points = [opt.key(x) for x in log["point"]]
        for i, row in enumerate(rows):
            if i + 1 < len(points):
                moved = points[i] != points[i + 1]
                check(row["accepted"] or not moved, "rows",
                      lambda: f"row {i} says rejected, the iterate moved")
    check(len(rows) == len(numbers), "rows",
          lambda: f"{len(rows)} rows for {len(numbers)} entries")
    for i, row in enumerate(rows):
        told = {"iteration": numbers, "cost": costs, "norm": norms,
                "evaluations": evals}
        for key, values in told.items():
            if key in row and i < len(values):
                check(near(row[key], float(values[i])), "rows",
                      lambda: f"row {i}: {key} {row[key]}, the log has "
                      f"{values[i]}")
        need = {"sd": {"iteration", "cost", "norm"},
                "cg": {"iteration", "cost", "norm"},
                "tr": {"iteration", "cost", "norm"},
                "nm": {"cost", "evaluations"},
                "ps": {"iteration", "cost", "evaluations"}}[config[:2]]
        check(need <= set(row), "rows", lambda: f"row {i} is {row}")
    rec.outcome((config[:2], verbosity, min(len(rows), 3)))


def parse(config, verbosity, lines):
    rows = []
    if config[:2] == "nm":
        for line in lines:
            m = re.match(rf"Cost evals:\s*(\d+)\s+Best cost:\s*{NUMBER}$",
                         line)
            if m:
                rows.append({"evaluations": m[1], "cost": m[2]})
        return rows
    if config[:2] == "tr":
        for line in lines:
            m = re.match(rf"\s*f: {NUMBER}\s+\|grad\|: {NUMBER}", line)
            if m:
                rows.append({"cost": m[1], "norm": m[2]})
            m = re.match(r"(acc|REJ) (TR\+|TR-|   )\s+k:\s*(\d+)\s+"
                         r"num_inner:\s*(\d+)\s+(.*)", line)
            if m:
                row = {"accepted": m[1] == "acc", "iteration": m[3]}
                n = re.match(rf"f:\s*{NUMBER}\s+\|grad\|:\s*{NUMBER}", m[5])
                if n:
                    row.update(cost=n[1], norm=n[2])
                rows.append(row)
            m = re.match(rf"\s*f\(x\) : {NUMBER}\s+\|grad\| : {NUMBER}",
                         line)
            if m and rows:
                rows[-1].update(cost=m[1], norm=m[2])
        return rows
    third = {"Gradient norm": "norm", "Cost": "cost", "Best cost": "cost",
             "Cost evaluations": "evaluations", "Iteration": "iteration"}
    header = next((i for i, line in enumerate(lines)
                   if line.startswith("Iteration")), None)
    if header is None:
        return rows
    starts = [(m.start(), m[0]) for m in re.finditer(
        "Gradient norm|Best cost|Cost evaluations|Cost|Iteration",
        lines[header])]
    for line in lines[header + 2:]:
        if not re.match(r"\s*\d+\s", line):
            continue
        row = {}
        ends = [s for s, _ in starts[1:]] + [len(line)]
        for (s, name), e in zip(starts, ends):
            row[third[name]] = line[s:e].strip()
        rows.append(row)
    return rows


# -- column printers --------------------------------------------------------


FORMATS = [("d", (0, 7, 12345, -3)), ("4d", (0, 12, 9999)),
           ("+.16e", (0.0, -1.5, 1e300, float("inf"), float("nan"))),
           (".8e", (0.0, 2.5e-9, 123.0)), ("s", ("", "text")),
           (">8s", ("", "abc")), ("", (0, "x"))]
TITLES = ("I", "Iteration", "Cost evaluations", "two words")
PLACEHOLDERS = {"s": "", ">8s": "", "": ""}


def capture(f, *args):
    buffer = io.StringIO()
    with contextlib.redirect_stdout(buffer):
        f(*args)
    return buffer.getvalue()


def columns(case, rec):
    single = list(itertools.product(TITLES, range(len(FORMATS))))
    for count in (1, 2, 3):
        sets = itertools.product(single, repeat=count)
        for n, chosen in enumerate(sets):
            if count == 3 and n % (3 if case["deep"] else 29):
                continue
            for padding in (0, 1, 4):
                table(rec, chosen, padding)
    v = printer.VoidPrinter()
    text = capture(v.print_header) + capture(v.print_row, [1, 2])
    rec.check(text == "", "printer/void", lambda: repr(text))


def table(rec, chosen, padding):
    specs = [(title, FORMATS[f][0]) for title, f in chosen]
    p = printer.ColumnPrinter(
        columns=specs, column_padding=padding,
        placeholder_values=[PLACEHOLDERS.get(f, 0) for _, f in specs])
    rec.state((chosen, padding))
    rec.trace()
    offsets, at = [], 0
    widths = []
    for title, f in specs:
        blank = format(PLACEHOLDERS.get(f, 0), f)
        offsets.append(at)
        widths.append(max(len(title), len(blank)) + padding)
        at += widths[-1]
    header = "".join(t.ljust(w) for (t, _), w in zip(specs, widths))
    rule = "".join(("-" * (w - padding)).ljust(w) for w in widths)
    text = capture(p.print_header)
    rec.check(text == f"{header}\n{rule}\n", "printer/header",
              lambda: f"{specs}, padding {padding}: {text!r}, expected "
              f"{header!r}, {rule!r}", nontrivial=(chosen, padding))
    rec.check(tuple(p.column_widths) == tuple(widths) and
              tuple(p.column_names) == tuple(t for t, _ in specs) and
              p.column_padding == padding, "printer/attributes",
              lambda: f"{specs}: {p.column_names}, {p.column_widths}, "
              f"{p.column_padding}", nontrivial=(chosen, padding))
    for k in range(5):
        values = [FORMATS[f][1][k % len(FORMATS[f][1])] for _, f in chosen]
        cells = [format(v, f) for v, (_, f) in zip(values, specs)]
        want = "".join(c.ljust(w) for c, w in zip(cells, widths))
        text = capture(p.print_row, values)
        rec.step()
        rec.check(text == want + "\n", "printer/row",
                  lambda: f"{specs}, padding {padding}, row {values}: "
                  f"{text!r}, expected {want!r}", nontrivial=(chosen, k))
