"""Explorer core: case fan-out, recording, evidence, replay, known findings.

A check module (mc/checks/cNN.py) provides

    ID, TITLE, LEVEL, RULE, ASSUMPTIONS
    cases(tier)          -> list of JSON-able case descriptors (the bounded space)
    run_case(case, rec)  -> explores that part of the space on the real code

Every case is executed; nothing is sampled.  A case is deterministic: it owns
the clock, the random generator and every environment answer it depends on.
"""
import collections
import fnmatch
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(VERIF, "known_findings.txt")
CASE_TIMEOUT = 850 if os.environ.get("VERIF_TIER") == "thorough" else 240


class HarnessError(Exception):
    """A fault of the machinery itself, never reported as a violation."""


class CaseTimeout(BaseException):
    pass


def digest(value):
    return hashlib.blake2b(repr(value).encode(), digest_size=8).hexdigest()


class Recorder:
    """Collects what one case covered and what it found."""

    MAX_FAILS = 12

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.nontrivial = set()
        self.outcomes = collections.Counter()
        self.samples = []
        self.fails = {}
        self.context = ""
        self.capped = []

    # -- coverage ----------------------------------------------------------
    def state(self, canonical):
        """Record a state; True when it had not been seen in this case."""
        h = digest(canonical)
        new = h not in self.states
        self.states.add(h)
        return new

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, label):
        self.outcomes[str(label)] += 1

    def sample(self, value):
        if len(self.samples) < 2:
            self.samples.append(value)

    # -- oracles -----------------------------------------------------------
    def check(self, condition, key, message="", nontrivial=None):
        """One oracle evaluation."""
        self.evaluations += 1
        self.nontrivial.add(digest((self.context, key, nontrivial)))
        if not condition:
            self.fail(key, message)
        return bool(condition)

    def fail(self, key, message=""):
        if callable(message):
            message = message()
        if key not in self.fails and len(self.fails) < self.MAX_FAILS:
            self.fails[key] = f"{self.context} {message}".strip()[:1500]

    def dump(self):
        return {
            "states": self.states,
            "transitions": self.transitions,
            "traces": self.traces,
            "evaluations": self.evaluations,
            "nontrivial": self.nontrivial,
            "outcomes": self.outcomes,
            "samples": self.samples,
            "fails": self.fails,
            "capped": self.capped,
        }


# -------------------------------------------------------------------------
# Deviation-bounded stateless exploration of environment answers.


class Chooser:
    """Replays a prefix of choices and takes the default (0) afterwards."""

    def __init__(self, prefix, horizon=10_000):
        self.prefix = prefix
        self.points = []
        self.choices = []
        self.horizon = horizon

    def choose(self, n, label=""):
        i = len(self.choices)
        if i >= self.horizon:
            raise Horizon()
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise HarnessError(
                f"replay diverged at choice {i} ({label}): {c} of {n}"
            )
        self.points.append((n, label))
        self.choices.append(c)
        return c


class Horizon(BaseException):
    """The execution asked for more environment answers than the horizon."""


def explore(run, *, deviations, max_depth=None, horizon=10_000, limit=None):
    """Execute `run(chooser)` for every choice sequence with at most
    `deviations` departures from the default answer, the last of which is
    among the first `max_depth` choice points.  Yields (choices, result)."""
    stack = [((), 0)]
    count = 0
    while stack:
        prefix, used = stack.pop()
        chooser = Chooser(prefix, horizon)
        result = run(chooser)
        count += 1
        yield tuple(chooser.choices), result
        if limit is not None and count >= limit:
            raise HarnessError(f"execution limit {limit} hit; lower the bound")
        if used >= deviations:
            continue
        points = chooser.points
        stop = len(points) if max_depth is None else min(max_depth, len(points))
        children = []
        for i in range(len(prefix), stop):
            base = tuple(chooser.choices[:i])
            for alternative in range(1, points[i][0]):
                children.append((base + (alternative,), used + 1))
        stack.extend(reversed(children))


# -------------------------------------------------------------------------
# Running a check.


def load_known():
    known = []
    if os.path.exists(KNOWN_FILE):
        with open(KNOWN_FILE) as handle:
            for line in handle:
                line = line.strip()
                if not line.startswith("known:"):
                    continue
                fields = line[len("known:"):].strip().split(None, 2)
                prop = fields[0].split("=", 1)[1]
                key = fields[1].split("=", 1)[1]
                known.append((prop, key, fields[2] if len(fields) > 2 else ""))
    return known


def _alarm(signum, frame):
    raise CaseTimeout()


def _in_implementation(tb):
    for frame in traceback.extract_tb(tb):
        if "/pymanopt/" in frame.filename and "/mc/" not in frame.filename:
            return True
    return False


_MODULE = None


def _execute(case):
    """Run one case; never raises."""
    import numpy as np

    rec = Recorder()
    rec.context = str(case.get("id", ""))
    np.random.seed(zlib.crc32(json.dumps(case, sort_keys=True).encode()))
    harness_error = None
    previous = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        _MODULE.run_case(case, rec)
    except CaseTimeout:
        rec.fail(f"{case.get('id', 'case')}/timeout",
                 f"case did not finish within {CASE_TIMEOUT} s")
    except HarnessError:
        harness_error = traceback.format_exc()
    except Horizon:
        rec.fail(f"{case.get('id', 'case')}/horizon",
                 "execution exceeded the horizon of environment answers")
    except Exception as error:
        # Cases are deterministic and complete on a conforming tree, so an
        # exception means that the code raised, or answered with a value
        # that the oracle cannot even evaluate.
        where = "raised" if _in_implementation(
            error.__traceback__) else "unusable-answer"
        rec.fail(
            f"{case.get('id', 'case')}/{where}",
            f"raised {type(error).__name__}: {error}\n"
            f"{traceback.format_exc()[-900:]}",
        )
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, previous)
    result = rec.dump()
    result["case"] = case
    result["harness_error"] = harness_error
    return result


def run_check(module_name, argv):
    global _MODULE
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    started = time.time()
    _MODULE = importlib.import_module(module_name)
    prop = _MODULE.ID

    if len(argv) >= 2 and argv[0] == "--replay":
        return _replay(argv[1])

    cases = _MODULE.cases(tier)
    workers = getattr(_MODULE, "WORKERS", 8)
    workers = max(1, min(workers, len(cases), len(os.sched_getaffinity(0))))
    results = []
    if workers == 1:
        for case in cases:
            results.append(_execute(case))
    else:
        context = multiprocessing.get_context("fork")
        tasks = getattr(_MODULE, "TASKS_PER_PROCESS", None)
        with context.Pool(workers, maxtasksperchild=tasks) as pool:
            for result in pool.imap_unordered(_execute, cases, chunksize=1):
                results.append(result)
        order = {json.dumps(c, sort_keys=True): i for i, c in enumerate(cases)}
        results.sort(key=lambda r: order[json.dumps(r["case"], sort_keys=True)])
    return _report(prop, tier, seed, started, cases, results)


def _report(prop, tier, seed, started, cases, results):
    states = sum(len(r["states"]) for r in results)
    outcomes = collections.Counter()
    nontrivial = set()
    samples = []
    fails = []
    capped = []
    for r in results:
        outcomes.update(r["outcomes"])
        nontrivial |= r["nontrivial"]
        capped.extend(r["capped"])
        if r["samples"] and len(samples) < 6:
            samples.append({"case": r["case"], "observed": r["samples"][0]})
        for key, message in r["fails"].items():
            fails.append((key, message, r["case"]))
    errors = [r for r in results if r["harness_error"]]
    known = [k for k in load_known() if k[0] == prop]
    suppressed = collections.OrderedDict()
    new = []
    for key, message, case in fails:
        for _, pattern, what in known:
            if fnmatch.fnmatchcase(key, pattern):
                suppressed.setdefault((pattern, what), []).append(key)
                break
        else:
            new.append((key, message, case))

    def clip(value):
        text = json.dumps(value, default=str)
        return json.loads(text) if len(text) < 3000 else text[:3000]

    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": _MODULE.LEVEL,
        "coverage": {
            "cases": len(cases),
            "states": states,
            "transitions": sum(r["transitions"] for r in results),
            "traces_validated_against_impl": sum(r["traces"] for r in results),
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(nontrivial),
            "rule": _MODULE.RULE,
            "exhaustive": not capped,
            "caps_hit": capped[:20],
            "distinct_outcomes": len(outcomes),
            "outcomes": dict(outcomes.most_common(40)),
            "samples": [clip(s) for s in samples]
            or [clip({"case": c}) for c in cases[:2]],
        },
        "assumptions": list(_MODULE.ASSUMPTIONS),
        "wall_s": round(time.time() - started, 3),
        "violations": len(new),
        "known_findings_seen": [
            f"{p}: {len(k)} case(s)" for (p, _), k in suppressed.items()
        ],
    }
    directory = os.path.join(VERIF, "evidence")
    os.makedirs(directory, exist_ok=True)
    replay_dir = os.path.join(directory, "replays")
    path = os.path.join(directory, f"{prop}.json")
    with open(path, "w") as handle:
        json.dump(evidence, handle, indent=1, default=str)
        handle.write("\n")

    cov = evidence["coverage"]
    print(
        f"{prop} [{tier}] cases={cov['cases']} states={cov['states']} "
        f"transitions={cov['transitions']} "
        f"traces={cov['traces_validated_against_impl']} "
        f"evaluations={cov['evaluations']} "
        f"outcomes={cov['distinct_outcomes']} wall={evidence['wall_s']}s"
    )
    if errors:
        for r in errors[:3]:
            print(f"HARNESS-ERROR case={r['case']}\n{r['harness_error']}")
        # A violation found elsewhere is still a violation.
        if not new:
            return 2
    for (pattern, what), keys in suppressed.items():
        print(f"KNOWN-FINDING: property={prop} {what} [{pattern}]")
    if not new:
        return 0
    os.makedirs(replay_dir, exist_ok=True)
    for i, (key, message, case) in enumerate(new[:8]):
        name = os.path.join(replay_dir, f"{prop}-{i}.json")
        with open(name, "w") as handle:
            json.dump(
                {"property": prop, "key": key, "message": message,
                 "case": case,
                 "how": f"/verif/run.sh {prop} --replay {name}"},
                handle, indent=1, default=str,
            )
        print(f"VIOLATION property={prop} replay={name}")
        print(f"    {key}: {message[:700]}")
    if len(new) > 8:
        print(f"    ... {len(new) - 8} further violations")
    return 1


def _replay(path):
    """Re-execute exactly one recorded case, twice, without the explorer."""
    with open(path) as handle:
        record = json.load(handle)
    first = _execute(record["case"])
    second = _execute(record["case"])
    if first["harness_error"]:
        print(first["harness_error"])
        return 2
    if list(first["fails"].items()) != list(second["fails"].items()):
        print("replay is not deterministic")
        return 2
    for key, message in first["fails"].items():
        mark = "*" if key == record["key"] else " "
        print(f"{mark} {key}: {message}")
    if record["key"] in first["fails"]:
        print(f"VIOLATION property={record['property']} replay={path}")
        return 1
    print("the recorded violation does not occur on this tree")
    return 0
