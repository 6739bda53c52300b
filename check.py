#!/usr/bin/env python3
import argparse, importlib, os, sys, traceback, pathlib
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
from lib.common import Ctx, CheckError, Found

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        mod = importlib.import_module("checks." + a.pid.lower())
        ctx = Ctx(a.pid, a.tier, seed)
        try:
            mod.run(ctx)
        except Found:
            pass
        sys.exit(ctx.finish())
    except CheckError as e:
        print(f"check error: {e}")
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)

main()
