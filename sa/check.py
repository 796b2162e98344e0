"""python3 sa/check.py <property id>: decide one property on /repo's current tree."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import extract, report

RULES = {}


def main():
    prop = sys.argv[1]
    ctx = report.Ctx(prop, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1") or 1))
    mod = importlib.import_module("rules." + prop.lower())
    try:
        mod.run(ctx)
    except extract.BuildError as e:
        sys.stderr.write("the working tree does not build:\n%s\n" % e)
        return 2
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
