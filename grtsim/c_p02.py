"""P02: schedule independence of finite-fault static synthesis, Okada"""
from schedcheck import *
import schedcheck as sc
from core import nc_parse, nc_vals, NCError
ID = "P02"; LEVEL = "exploration"; VARIANTS = ["plain", "tsan"]
CASES = dict(quick=20000, thorough=200000); BUDGET = dict(quick=80, thorough=1500)
RULE = "distinct schedules: hash of the sequence of context switches (step, worker) and of loop chunks handed to workers, over runs with at least one parallel region of two or more workers"
GENS = ["static_ff", "static_ff", "okada"]

def rows(scn):
    """the fault list as single-fault lists, or None"""
    f = next((x for x in scn["files"] if x.endswith((".inp", ".inr"))), None)
    if not f or not any(a.startswith("-C" + f) for a in scn["cmd"]): return None, []
    L = scn["files"][f].splitlines(True); return f, [L[0] + L[1] + l for l in L[2:] if l.strip()]

def additive(prep, conf, variant):
    """every fault of the list contributes exactly once: the field of the list, computed by several workers, is the sum of the fields of its members computed alone"""
    scn = prep.scn; f, R = rows(scn); out = []
    if len(R) < 2: return out
    exe = build.build_path(variant); p = scn["outs"][0]; q, t = prep.run(conf, exe=exe)
    if q.rc: return out        # judged elsewhere
    P = []
    for x in R:
        w = prep.dir(dict(prep.base, **{f: x.encode()})); q1 = sim(prep.exe, prep.cmd, w, prep.aux, conf=dict(nprocs=1), tag="one"); v = tree(w).get(p); rmtree(w)
        if q1.rc or v is None: prep.alone_refused = True; return out      # a list of this member alone may be refused
        P.append(nc_parse(v)[2])
    try: A = nc_parse(t[p])[2]
    except (NCError, KeyError) as e: return [("P02 %s unreadable" % scn["module"], "%s: %s" % (p, e))]
    for k in A:
        if A[k][2] not in (5, 6) or k in ("north", "east", "depth", "x", "y") or all(k in B and A[k][3] == B[k][3] for B in P): continue
        if not all(k in B and len(B[k][3]) == len(A[k][3]) for B in P): continue
        V = nc_vals(A[k]); S = [nc_vals(B[k]) for B in P]; sc_ = max((sum(abs(s[i]) for s in S) for i in range(len(V))), default=0.)
        for i, x in enumerate(V):
            y = sum(s[i] for s in S)
            if x == y or x != x or y != y: continue
            if abs(x - y) > 1e-8 * sc_: out.append(("P02 %s not-the-sum-of-its-faults" % scn["module"], "`grt %s` with %s workers: %s[%d] is %r, the faults of the list alone add up to %r" % (" ".join(q.argv), (q.rep or {}).get("maxthreads"), k, i, x, y))); return out
    return out

def explore(r, o, tier):
    sc.explore(r, o, tier, ID, GENS, 4, 12)
    if r.random() < .5:
        scn = sc.gens_call(r.choice(GENS), r)
        if len(rows(scn)[1]) < 2: return
        try: prep = Prep(scn, trace=False, note=o.note)
        except Bad: o.skipped += 1; return
        with prep:
            conf = conf_for(r, False); o.st["additivity_checks"] += 1
            for sig, text in additive(prep, conf, "plain"): o.violation(sig, text, dict(scn=scn, conf=conf, variant="plain", p=0, additive=True))
def execute(desc):
    if desc.get("additive"): return additive(Cache.get(desc["scn"], trace=False), desc["conf"], desc["variant"])
    return sc.execute(desc, ID)
_shrink = sc.shrink
def shrink(desc):
    if not desc.get("additive"): yield from _shrink(desc); return
    for n in (1, 2):
        if desc["conf"]["nprocs"] > n: yield dict(desc, conf=dict(desc["conf"], nprocs=n))
