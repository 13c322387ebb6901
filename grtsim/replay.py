#!/usr/bin/env python3
"""Replay one violation file: python3 replay.py FILE. Exit 1 if the recorded violation shows again, 0 if not."""
import sys, os, json, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
def main():
    a = [x for x in sys.argv[1:] if not x.startswith("--")]; d = json.load(open(a[0])); m = importlib.import_module(d["module"])
    for v in m.VARIANTS: build.build(v)
    if hasattr(m, "prepare"): m.prepare()
    r = m.execute(d["desc"])
    if "--json" in sys.argv: print("RESULT " + json.dumps(r)); return 0
    for s, t in r: print("%s\n   %s" % (s, t))
    if d["signature"] in [x[0] for x in r]: print("VIOLATION property=%s replay=%s" % (d["property"], a[0])); return 1
    print("recorded violation not reproduced"); return 0
if __name__ == "__main__": sys.exit(main())
