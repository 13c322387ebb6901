"""Executable model of the documented products of the waveform modules: which files a successful run leaves, and their lengths."""
import os, re
from work import fmt
SRC = dict(e=["EX"], v=["VF"], h=["HF"], s=["DD", "DS", "SS"])
def opt(argv, p): return next((a[len(p):] for a in argv if a.startswith(p)), None)
def grn_names(argv, comps="ZRT"):
    g = opt(argv[1:], "-G") or "evhs"; d = "-e" in argv; L = []
    for k in "evhs":
        if k in g:
            for s in SRC[k]:
                for c in comps if s in ("HF", "DS", "SS") else comps.replace("T", ""): L += [s + c] + (["z" + s + c, "r" + s + c] if d else [])
    return L
def samples(argv):
    n = opt(argv, "-N"); f = re.search(r"\+n(\d+)", n); return int(n.split("/")[0]) * (int(f.group(1)) if f else 1)
def syn_names(argv):
    c = "ZNE" if "-N" in argv else "ZRT"; return list(c) + ([(x.lower() + y) for x in c for y in c] if "-e" in argv else [])
def expected(scn):
    """{path: number of samples or None}; None when there is no model for this command"""
    a = scn["cmd"]; m = scn["module"]
    if m in ("greenfn", "modsum"):
        if scn["model"].startswith(("seafloor", "ice")): return None      # fewer sources where the source lies in the water
        comps = "ZRT" if m == "greenfn" else "T" if "-SL" in scn["setup"][0] else "ZR"
        n = samples(a) if m == "greenfn" else None
        return {"%s/%s_%s_%s_%s/%s.sac" % (scn["outs"][0], scn["model"], fmt(s), fmt(r), fmt(x), c): n for s in scn["src"] for r in scn["rcv"] for x in scn["dist"] for c in grn_names(a, comps)}
    if m == "syn" or m in ("strain", "stress", "rotation"):
        g = scn["setup"][0]; s = a if m == "syn" else scn["setup"][1]; n = samples(g); out = scn["outs"][0]; z = "ZNE" if "-N" in s else "ZRT"
        if m == "syn": L = syn_names(s)
        else: L = ["%s_%s%s" % (m, z[i], z[j]) for i in range(3) for j in range(i + (m == "rotation"), 3)]
        return {"%s/%s.sac" % (out, c): n for c in L}
    return None
def check(scn, t):
    """first documented product that a successful run did not leave in full, or None"""
    e = expected(scn)
    if e is None: return None
    size = None
    for p, n in sorted(e.items()):
        v = t.get(p)
        if not isinstance(v, bytes): return "%s is missing" % p
        if n is not None and len(v) != 632 + 4 * n: return "%s has %d bytes, %d samples are %d bytes" % (p, len(v), n, 632 + 4 * n)
        if len(v) <= 632 or (size and len(v) != size): return "%s has %d bytes, the other components have %s" % (p, len(v), size)
        size = len(v)
    return None

FILL = (9.969209968386869e36, 9.96920996838687e36)
def nc_check(scn, t):
    """a NetCDF product of a successful run whose data were never written in part"""
    import core
    for p in scn["outs"]:
        if not p.endswith(".nc"): continue
        v = t.get(p)
        if not isinstance(v, bytes): return "%s is missing" % p
        try: D, G, V = core.nc_parse(v)
        except core.NCError as e: return "%s is unreadable: %s" % (p, e)
        if not V: return "%s holds no variable" % p
        dims = dict(D)
        for k, x in V.items():
            if x[2] in (5, 6):
                u = core.nc_vals(x)
                if any(abs(y) > 9.9e36 and abs(y) < 1e37 for y in u if y == y): return "%s: part of %s was never written" % (p, k)
        if scn["module"] in ("static_syn", "static_ff", "okada"):
            want = {}
            for o, n in (("-X", "north"), ("-Y", "east")):
                w = opt(scn["cmd"], o)
                if w: a, b, d = map(float, w.split("/")); want[n] = int((b - a) / d + 1e-6) + 1
            for n, k in want.items():
                if n in dims and dims[n] != k: return "%s: %s has %d points, %d were asked for" % (p, n, dims[n], k)
    return None
