"""Run the static check of one property: check.py C01 [--repo DIR]."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(50000)

from sa.report import Report  # noqa
from sa.vals import AnalysisBroken  # noqa


def main():
    prop = sys.argv[1]
    root = "/repo"
    if "--repo" in sys.argv:
        root = sys.argv[sys.argv.index("--repo") + 1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rep = Report(prop, tier, seed)
    rule = importlib.import_module(f"sa.rules.{prop.lower()}")
    try:
        rule.run(root, rep)
    except AnalysisBroken as e:
        print(f"BROKEN: property={prop} {e}")
        return 2
    return rep.finish(getattr(rule, "LEVEL", "other"))


if __name__ == "__main__":

    import resource

    try:
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except (ValueError, OSError):
        pass
    sys.exit(main())
