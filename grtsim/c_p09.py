"""P09: allocation failure"""
from faultcheck import *
import faultcheck as fc
ID = "P09"; LEVEL = "exploration"; VARIANTS = ["plain"]
CASES = dict(quick=20000, thorough=200000); BUDGET = dict(quick=75, thorough=1500)
RULE = "distinct (module, position of the failed allocation, failure mode, success/failure) combinations among runs in which an allocation failed"
ASSUME = COMMON_ASSUME + ["An allocation failure is a NULL result of malloc, calloc, realloc or an aligned allocation, in PyGRT or in the C library and FFTW on its behalf (not inside the NetCDF library, which ignores some of its own failures); the process is not killed by an out-of-memory killer."]
GENS = list(work.ALL)

def judge(prep, q, t, idx, md):
    scn = prep.scn; mode = {0: "single", 1: "persistent", 2: "burst"}[md]; mod = scn["module"]; out = []
    if q.hang or (q.rep and q.rep["steplimit"]): return [("P09 %s hang" % mod, "the run does not terminate after a failed allocation")]
    if q.rep and q.rep["deadlock"]: return [("P09 %s deadlock" % mod, "deadlock after a failed allocation")]
    if q.rc == 0:
        d = compare(scn, prep.reft, prep.ref.out, t, q.out, ("sac", "nc", "aux"), True)
        if d: out.append(("P09 %s success-with-%s %s" % (mod, d[2], pclass(scn, d[1]) if d[0] != "stdout" else "<stdout>"),
                          "`grt %s` exits 0 although %s is %s; allocation %s of %d failed (%s)" % (" ".join(prep.cmd), d[1], d[2], idx, prep.ref.rep["allocs"], mode)))
    return out

def go(prep, idx, mode, np=1):
    q, t = prep.run(dict(alloc_fail=idx, alloc_mode=mode, nprocs=np, maxops=2000000))
    return q, t

def explore(r, o, tier):
    name = r.choice(GENS); scn = work.ALL[name](r)
    try: prep = Prep(scn, note=o.note, refconf=dict(nprocs=1))
    except Bad: o.skipped += 1; o.st["skipped:" + name] += 1; return
    with prep:
        n = prep.ref.rep["allocs"]; o.st["scenario:" + scn.module] += 1
        for i in range(10):
            k = r.random()
            idx = r.randrange(n) if k < .4 else int(n ** r.random()) % n if k < .7 else n - 1 - int(n ** r.random()) % n
            mode = r.choice([0, 0, 0, 1, 2]); np = 1 if scn["tol"] else r.choice([1, 1, 1, 2, 4]); q, t = go(prep, idx, mode, np); o.note(q)
            fired = bool(q.rep and q.rep["alloc_faults_fired"])
            o.st["outcome:" + ("success" if q.rc == 0 else "failure" if q.rc > 0 else "killed by signal")] += 1
            o.st["fired" if fired else "not_fired"] += 1
            if fired: o.distinct.add(engine.h(scn.module, idx if idx < 200 else idx * 64 // n + 1000, mode, q.rc == 0))
            if i == 0: o.samples.append(dict(cmd=" ".join(prep.cmd), allocation=idx, of=n, mode=mode, exit=q.rc))
            for sig, text in judge(prep, q, t, idx, mode): o.violation(sig, text, dict(scn=scn, idx=idx, mode=mode, np=np))

def execute(desc):
    p = Cache.get(desc["scn"], refconf=dict(nprocs=1)); q, t = go(p, desc["idx"], desc["mode"], desc.get("np", 1)); return judge(p, q, t, desc["idx"], desc["mode"])

def shrink(desc):
    if desc.get("np", 1) != 1: yield dict(desc, np=1)
    if desc["mode"]: yield dict(desc, mode=0)
    yield from fc.shrink(dict(desc, conf={}))
