"""Shared body of the properties 'a fault never turns into a wrong or incomplete success' (P05-P09)."""
import random, re
import work
from prep import *
import engine, docmodel

COMMON_ASSUME = ["The simulated disk is a scratch directory; operations are intercepted at the libc boundary (stdio, POSIX I/O of the NetCDF library, directory and path calls).",
                 "The reference is the fault-free single-thread run of the same tree in the same simulator; products are compared byte for byte.",
                 "Fault kinds are those listed under faults_injected; media corruption that returns wrong bytes without an error is not modelled."]
REAL = ["all of PyGRT's C sources (every module, unmodified, compiled from /repo)", "NetCDF and FFTW libraries", "glibc stdio buffering above the simulated descriptors"]
STUB = ["OpenMP runtime (own deterministic implementation)", "disk failures, full disk, lost write-back (injected at the libc boundary)", "clock", "allocator front end (failure and garbage injection over glibc malloc)"]

def judge(prep, q, t, classes, with_stdout, pid):
    """list of (signature, text)"""
    scn = prep.scn; out = []
    mod = scn["module"]
    if q.hang or (q.rep and q.rep["steplimit"]): out.append(("%s %s hang %s" % (pid, mod, fault_class(scn, q)), "the run does not terminate")); return out
    if q.rep and q.rep["deadlock"]: out.append(("%s %s deadlock %s" % (pid, mod, fault_class(scn, q)), "deadlock")); return out
    if q.rc == 0 and not (q.rep and q.rep["fault_info"]):      # documented products, independent of the reference
        x = docmodel.check(scn, t) if "sac" in classes else None
        if x is None and "nc" in classes: x = docmodel.nc_check(scn, t)
        if x: out.append(("%s %s documented-product-incomplete" % (pid, mod), "`grt %s` exits 0 but %s" % (" ".join(prep.cmd), x))); return out
    if q.rc == 0:
        d = compare(scn, prep.reft, prep.ref.out, t, q.out, classes, with_stdout)
        if d: out.append(("%s %s success-with-%s %s after %s" % (pid, mod, d[2], pclass(scn, d[1]) if d[0] != "stdout" else "<stdout>", fault_class(scn, q)),
                          "`grt %s` exits 0 although %s is %s; fault: %s" % (" ".join(prep.cmd), d[1], d[2], "; ".join(q.rep["fault_info"]) if q.rep else "?")))
    elif q.rep and not q.rep["fault_info"] and not q.rep["alloc_faults_fired"] and q.rc in (97, 98): pass
    return out

def explore(r, o, tier, pid, gens, want, classes, with_stdout, nplans, multi=.15):
    name = r.choice(gens); scn = {**work.ALL, **work.LONG}[name](r)
    try: prep = Prep(scn, note=o.note)
    except Bad as e: o.skipped += 1; o.st["skipped:" + name] += 1; return
    with prep:
        o.st["scenario:" + scn.module] += 1
        for sig, text in judge(prep, prep.ref, prep.reft, classes, False, pid): o.violation(sig, text, dict(scn=scn, conf={}))
        for i in range(nplans):
            fs = pick_faults(r, prep.ref.ops + prep.ref.libops, scn, want, 1 if r.random() > multi else r.choice([2, 3]), prep.base)
            if not fs: o.skipped += 1; return
            conf = dict(faults=fs, nprocs=1 if scn["tol"] else r.choice([1, 1, 1, 2, 4]), seed=i + 1)
            q, t = prep.run(conf); o.note(q)
            fired = bool(q.rep and q.rep["fault_info"])
            o.st["faulty_runs_fired" if fired else "faulty_runs_not_fired"] += 1
            o.st["outcome:" + ("success" if q.rc == 0 else "failure" if q.rc > 0 else "killed")] += 1
            if fired: o.distinct.add(engine.h(scn.module, [fault_class(scn, q)], q.rc == 0, fs[0][1:3]))
            if i == 0: o.samples.append(dict(cmd=" ".join(prep.cmd), faults=q.rep["fault_info"] if q.rep else [], exit=q.rc))
            for sig, text in judge(prep, q, t, classes, with_stdout, pid): o.violation(sig, text, dict(scn=scn, conf=conf))

def execute(desc, pid, classes, with_stdout):
    p = Cache.get(desc["scn"]); q, t = p.run(desc["conf"]); return judge(p, q, t, classes, with_stdout, pid)

def shrink(desc):
    if desc["conf"].get("nprocs", 1) != 1: yield dict(desc, conf=dict(desc["conf"], nprocs=1))
    fs = desc["conf"].get("faults", [])
    if len(fs) > 1:
        for i in range(len(fs)): yield dict(desc, conf=dict(desc["conf"], faults=fs[:i] + fs[i + 1:]))
    s = desc["scn"]
    for i, a in enumerate(s["cmd"]):
        if re.match(r"^-[BCEHGLSKWs]", a) and i > 0 and s["module"] in ("greenfn", "kernel", "modsum") and not a.startswith("-C" if s["module"] != "greenfn" else "@"):
            yield dict(desc, scn=dict(s, cmd=s["cmd"][:i] + s["cmd"][i + 1:]))
