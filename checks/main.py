import os
import sys
import time

sys.setrecursionlimit(20000)


def main():
    prop, tier, facts = sys.argv[1], sys.argv[2], sys.argv[3]
    t0 = time.time()
    from . import core, props
    ctx = core.Ctx(facts, prop, tier)
    return props.run(ctx, t0)


if __name__ == "__main__":
    sys.exit(main())
