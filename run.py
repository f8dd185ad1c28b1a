"""run.py <property> [quick|thorough] [--replay FILE]: model-check one property of agnpy"""
import importlib
import json
import os
import sys
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("AGNPY_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
warnings.simplefilter("ignore")


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = "quick"
    replay = None
    if "--replay" in args:
        replay = args[args.index("--replay") + 1]
    if len(args) > 1 and args[1] in ("quick", "thorough"):
        tier = args[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from mc.core import Ctx, finish

    ctx = Ctx(prop, tier, seed)
    if replay:
        r = json.load(open(replay))
        ctx.replay = (r["exploration"], r["history"])
        ctx.tier = r.get("tier", tier)
        ctx.quick = ctx.tier == "quick"
    bounds, assumptions = "not reached", []
    try:
        import agnpy

        assert os.path.realpath(agnpy.__file__).startswith(os.path.realpath(REPO)), agnpy.__file__
        from checks import REGISTRY

        mod, fn = REGISTRY[prop]
        m = importlib.import_module("checks." + mod)
        f = getattr(m, fn)
        bounds, assumptions = f.bounds, list(getattr(f, "assumptions", []))
        f(ctx)
        from checks.history import JOBS

        if prop in JOBS:
            bounds += "; arguments: every sequence of 2 (thorough: 3) questions in 10 forms (array changed in place, new, reversed, part, reshaped, 1537 elements, values returned overwritten) to one object"
            ctx.parallel(JOBS[prop])
    except Exception as e:
        ctx._cur = ctx._cur or "setup"
        ctx.report(f"the check could not complete, {type(e).__name__}: {e}", None, traceback.format_exc())
    sys.stdout.flush()
    return finish(ctx, bounds, assumptions)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
