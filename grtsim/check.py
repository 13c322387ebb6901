#!/usr/bin/env python3
"""python3 check.py Pxx [quick|thorough]"""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine, build
def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try: return engine.run_check(importlib.import_module("c_" + pid.lower()), tier, seed)
    except build.BuildError as e: print("ERROR: the tree does not build\n%s" % e); return 2
if __name__ == "__main__": sys.exit(main())
