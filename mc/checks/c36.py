"""Backends are optional and independent of each other."""
import itertools
import json
import os
import subprocess
import sys

from .. import core

ID = "C36"
LEVEL = "model_checking"
RULE = (
    "state = (set of missing backend packages, missing or broken, packages "
    "the user imported before pymanopt); one real process per state imports "
    "pymanopt, uses every decorator, every derivative operator of the "
    "available backends (first forwards, then backwards through the list) "
    "and every optimizer"
)
ASSUMPTIONS = [
    "a missing package raises ModuleNotFoundError, a broken one ImportError",
    "numpy and scipy are always there",
]
PACKAGES = ("autograd", "jax", "pytorch", "tensorflow")


def cases(tier):
    out = []
    for size in range(len(PACKAGES) + 1):
        for missing in itertools.combinations(PACKAGES, size):
            there = [p for p in PACKAGES if p not in missing]
            variants = [(False, [])]
            if tier == "thorough":
                variants += [(False, there), (False, there[::-1])]
                variants += [(False, [p]) for p in there]
                if missing:
                    variants.append((True, []))
            elif size in (1, 4):
                variants.append((True, []))
            if size == 0 and tier != "thorough":
                variants.append((False, there[::-1]))
            seen = []
            for broken, before in variants:
                if (broken, before) in seen:
                    continue
                seen.append((broken, before))
                out.append({
                    "id": f"without {'+'.join(missing) or 'none'}"
                    f"{' (broken)' if broken else ''}"
                    f" after {'+'.join(before) or 'nothing'}",
                    "missing": list(missing), "broken": broken,
                    "before": before, "after": there})
    return out


def run_case(case, rec):
    spec = {k: case[k] for k in ("missing", "broken", "before", "after")}
    done = subprocess.run(
        [sys.executable, "-W", "ignore", "-m", "mc.absent", json.dumps(spec)],
        cwd=core.VERIF, env=dict(os.environ), capture_output=True, text=True,
        timeout=200)
    lines = done.stdout.strip().splitlines()
    try:
        checks = json.loads(lines[-1])
    except (IndexError, ValueError):
        rec.check(False, f"{case['id']}/process",
                  f"exit {done.returncode}: {done.stderr[-600:]}")
        return
    rec.trace()
    for key, ok, message in checks:
        rec.step()
        rec.state((case["id"], key))
        rec.check(ok, f"{case['id']}/{key}", message, nontrivial=key)
        rec.outcome(key.split("/")[0])
    rec.sample({"missing": case["missing"], "checked": len(checks)})
