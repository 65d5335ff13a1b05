#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import importlib, os, shutil, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import infra

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = infra.Ctx(pid, tier, seed)
    try:
        mod = importlib.import_module("checks." + pid)
        mod.run(ctx)
        return ctx.finish()
    except infra.CheckError as e:
        if ctx.violations:            # something was already established
            return ctx.finish()
        print("CHECK-ERROR:", e); return 2
    except Exception:
        traceback.print_exc(); return 2
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)

sys.exit(main())
