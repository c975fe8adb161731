"""Entry point: check <PROPERTY> [--tier quick|thorough] [--seed N]."""
import argparse, importlib, os, sys, traceback
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.path.insert(0, os.path.join(os.path.dirname(here), "checks"))
import vf

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
a = ap.parse_args()
ctx = vf.Ctx(a.prop, a.tier, a.seed)
try:
    mod = importlib.import_module(a.prop)
    try:
        mod.run(ctx)
    except vf.Violated:
        pass
    rc = ctx.finish()
except vf.ToolError as e:
    print("TOOL-ERROR property=%s %s" % (a.prop, e))
    rc = 2
except Exception:
    traceback.print_exc()
    rc = 3
finally:
    ctx.cleanup()
sys.stdout.flush()
os._exit(rc)
