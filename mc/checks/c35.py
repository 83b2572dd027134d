"""Failing user functions end a run cleanly."""
import contextlib
import io
import os
import sys
import warnings

import numpy as np

from .. import geo, opt
from . import c24

ID = "C35"
LEVEL = "model_checking"
RULE = (
    "state = (optimizer configuration, manifold, kind of user function or "
    "manifold operation, index of the call that fails, type of the error); "
    "every call of a run is made to fail once: the very error must reach the "
    "caller, process-wide settings and the caller's data must be unchanged, "
    "and running again with the same optimizer and problem must equal a run "
    "that never met the failure"
)
ASSUMPTIONS = opt.ASSUME + [
    "errors are ordinary exceptions and KeyboardInterrupt",
    "manifold operations fail with an error of their own type "
    "(NotImplementedError is how manifolds say that an operation is missing)",
]


class Own(Exception):
    pass


class OwnArithmetic(ArithmeticError):
    pass


class OwnValue(ValueError):
    pass


ERRORS = {
    "own": Own, "value": OwnValue, "arithmetic": OwnArithmetic,
    "floating": FloatingPointError, "zero-division": ZeroDivisionError,
    "overflow": OverflowError,
    "linalg": np.linalg.LinAlgError, "type": TypeError,
    "attribute": AttributeError, "index": IndexError, "key": KeyError,
    "not-implemented": NotImplementedError, "runtime": RuntimeError,
    "os": OSError, "timeout": TimeoutError, "memory": MemoryError,
    "recursion": RecursionError, "assertion": AssertionError,
    "interrupt": KeyboardInterrupt, "exit": SystemExit,
}
OPERATIONS = (
    "inner_product", "norm", "dist", "projection", "to_tangent_space",
    "random_point", "random_tangent_vector", "zero_vector", "exp", "log",
    "retraction", "transport", "pair_mean",
    "euclidean_to_riemannian_gradient", "euclidean_to_riemannian_hessian",
)
WORLDS = ("plane", "sphere", "product")
MORE = ("stiefel", "line", "grassmann", "fixedrank")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for config in opt.CONFIGS:
        for name in WORLDS + (MORE if deep else ()):
            if not opt.supports(name, config):
                continue
            out.append({"id": f"{config}/{name}", "config": config,
                        "name": name, "n": 6 if deep else 3, "deep": deep})
    for name in WORLDS + (MORE if deep else ()):
        out.append({"id": f"checkers/{name}", "checkers": True,
                    "name": name, "deep": deep})
    return out


class Faulty(opt.World):
    """A world in which one call of one kind raises."""

    def __init__(self, inst, kind=None, at=None, error=None,
                 preconditioned=False):
        self.kind, self.at, self.error = kind, at, error
        self.count = {}
        self.raised = False
        self.armed = True
        super().__init__(inst)
        if preconditioned:
            self.preconditioner = self.precondition
        source = self.source
        if source.hess is not None:
            def hess(x, e, inner=source.hess):
                self.pass_by("hessian")
                return inner(x, e)

            self.source = opt.Cost(source.cost, source.grad, hess)
        for name in OPERATIONS:
            if name in inst.lacks:
                continue
            self.spy(name)

    def spy(self, name):
        original = getattr(self.manifold, name)

        def operation(*args, **kwargs):
            self.pass_by("manifold." + name)
            return original(*args, **kwargs)

        setattr(self.manifold, name, operation)

    def pass_by(self, kind):
        if not self.armed:
            return
        self.count[kind] = self.count.get(kind, 0) + 1
        if kind == self.kind and self.count[kind] == self.at:
            self.raised = True
            raise self.error

    def cost(self, x):
        self.pass_by("cost")
        return super().cost(x)

    def grad(self, x):
        self.pass_by("gradient")
        return super().grad(x)

    def precondition(self, x, v):
        self.pass_by("preconditioner")
        return v


def settings():
    """Process-wide settings a library call must leave alone."""
    return {
        "errstate": np.geterr(), "errcall": np.geterrcall(),
        "printoptions": str(np.get_printoptions()),
        "warnings": list(warnings.filters),
        "showwarning": warnings.showwarning,
        "stdout": sys.stdout, "stderr": sys.stderr,
        "recursion": sys.getrecursionlimit(),
        "excepthook": sys.excepthook, "directory": os.getcwd(),
        "environment": dict(os.environ),
    }


@contextlib.contextmanager
def distinctive():
    """Settings no code sets by itself, so that every change shows."""
    with np.errstate(all="call", call=quietly), np.printoptions(
            precision=5, threshold=77, edgeitems=2):
        yield


def quietly(kind, flag):
    pass


def reduced(out):
    snap = c24.snapshot(out)
    del snap["asked"]
    return snap


def run_case(case, rec):
    with distinctive():
        explore_case(case, rec)


def explore_case(case, rec):
    if case.get("checkers"):
        return checkers(case, rec)
    config, name = case["config"], case["name"]
    label = case["id"]
    i = opt.inst(name)
    start = opt.start_for(i, config, 1)
    precond = config[:2] in ("cg", "tr") and name == "plane"

    def go(world, optimizer, problem):
        s = geo.copy(start)
        before = settings()
        try:
            return opt.execute(world, optimizer, start=s, problem=problem)
        finally:
            after = settings()
            bad = [k for k in before if before[k] != after[k]]
            rec.check(not bad, f"{label}/settings",
                      lambda: f"changed: {bad} (failing "
                      f"{world.kind} {world.at})", nontrivial=None)
            rec.check(c24.same(s, start), f"{label}/caller-data",
                      "the initial point was modified", nontrivial=None)

    def make(**kw):
        w = Faulty(i, preconditioned=precond, **kw)
        return w, opt.build(config, max_iterations=case["n"],
                            log_verbosity=1)

    w, o = make()
    clean = go(w, o, w.problem())
    total = dict(w.count)
    want = reduced(clean)
    rec.sample({"calls of each kind in the clean run": total})
    for kind, calls in sorted(total.items()):
        own = kind.startswith("manifold.")
        indices = range(1, calls + 1)
        if not case["deep"] and calls > 12:
            indices = list(range(1, 9)) + [calls // 2, calls - 1, calls]
        for at in indices:
            full = not own and (case["deep"] or at in (1, 2, 3, calls))
            kinds = ERRORS if full else ("own", "interrupt")
            for e in kinds:
                error = ERRORS[e]("planted")
                w, o = make(kind=kind, at=at, error=error)
                problem = w.problem()
                seen = None
                try:
                    go(w, o, problem)
                except BaseException as caught:  # noqa: B902
                    seen = caught
                if not w.raised:
                    continue
                rec.trace()
                rec.step(sum(w.count.values()))
                rec.state((label, kind, at, e))
                rec.check(
                    seen is error, f"{label}/propagates",
                    lambda: f"{e} error at call {at} of {kind}: the caller "
                    f"saw {seen!r}", nontrivial=(kind, at, e))
                rec.outcome(f"{kind}")
                if e not in ("own", "interrupt") and at != 2:
                    continue
                # the same objects, without the failure
                w.armed = False
                got = reduced(go(w, o, problem))
                rec.check(
                    c24.same(got, want), f"{label}/again",
                    lambda: f"after {e} error at call {at} of {kind}: "
                    f"(clean, again) {c24.difference(want, got)}",
                    nontrivial=(kind, at, e, "again"))


def checkers(case, rec):
    from pymanopt.tools import diagnostics

    import matplotlib.pyplot as plt

    name, label = case["name"], case["id"]
    i = opt.inst(name)
    for which in ("check_gradient", "check_hessian", "check_retraction"):
        if which == "check_hessian" and "hessian" in i.lacks:
            continue

        def go(w):
            before = settings()
            np.random.seed(4)
            buffer = io.StringIO()
            try:
                with contextlib.redirect_stdout(buffer):
                    if which == "check_retraction":
                        getattr(diagnostics, which)(w.manifold)
                    else:
                        getattr(diagnostics, which)(w.problem())
            finally:
                plt.close("all")
                after = settings()
                bad = [k for k in before if before[k] != after[k]]
                rec.check(not bad, f"{label}/{which}/settings",
                          lambda: f"changed: {bad}", nontrivial=None)
            return buffer.getvalue()

        w = Faulty(i)
        try:
            want = go(w)
        except NotImplementedError:
            continue
        for kind, calls in sorted(w.count.items()):
            indices = range(1, calls + 1) if case["deep"] else sorted(
                {1, 2, 3, calls // 2 or 1, calls})
            for at in indices:
                for e in ("own", "value", "interrupt"):
                    error = ERRORS[e]("planted")
                    f = Faulty(i, kind=kind, at=at, error=error)
                    seen = None
                    try:
                        go(f)
                    except BaseException as caught:  # noqa: B902
                        seen = caught
                    if not f.raised:
                        continue
                    rec.trace()
                    rec.step(sum(f.count.values()))
                    rec.state((label, which, kind, at, e))
                    rec.check(
                        seen is error, f"{label}/{which}/propagates",
                        lambda: f"{e} error at call {at} of {kind}: the "
                        f"caller saw {seen!r}",
                        nontrivial=(which, kind, at, e))
                    f.armed = False
                    again = go(f)
                    rec.check(again == want, f"{label}/{which}/again",
                              lambda: f"after {e} error at call {at} of "
                              f"{kind} the checker prints {again!r} instead "
                              f"of {want!r}",
                              nontrivial=(which, kind, at, e, "again"))
