"""Entry point: python -m mc.run C01 [--replay FILE]."""
import sys

from . import env

SLOW = {"C17", "C18", "C40"}  # need the real tensorflow, torch and jax


def self_test():
    """The explorer itself: counts and replay determinism on a toy system."""
    env.setup(fast=True)
    from . import core, zoo

    def run(chooser):
        return tuple(chooser.choose(3) for _ in range(4))

    for bound, expected in ((0, 1), (1, 9), (2, 33), (4, 81)):
        seen = [r for _, r in core.explore(run, deviations=bound)]
        assert len(seen) == len(set(seen)) == expected, (bound, len(seen))
    for inst in zoo.instances("thorough"):
        for label, x in inst.points():
            assert inst.on_manifold(x), (inst.name, label)
            for name, v in inst.tangents(x):
                assert inst.is_tangent(x, v), (inst.name, label, name)
    print("self-test passed")
    return 0


def main():
    if len(sys.argv) < 2:
        print("usage: run.sh PROPERTY [--replay FILE]")
        return 2
    if sys.argv[1] == "--self-test":
        return self_test()
    prop = sys.argv[1].upper()
    env.setup(fast=prop not in SLOW)
    from . import core

    return core.run_check(f"mc.checks.{prop.lower()}", sys.argv[2:])


if __name__ == "__main__":
    sys.exit(main())
