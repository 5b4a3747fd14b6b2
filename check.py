#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: runs one check. Exit 0 held, 1 violation, 2 the check itself failed."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = vlib.Ctx(prop, tier, seed)
    try:
        importlib.import_module("checks." + prop.lower()).run(ctx)
        rc = ctx.finish()
    except vlib.ToolError as e:
        print("check error: %s" % e)
        rc = 1 if ctx.violations else 2
        if rc == 1: ctx.finish()
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.cleanup()
    sys.exit(rc)
main()
