"""Shared body of the schedule-independence properties (P01-P03)."""
import random, re, os, collections
import work
from prep import *
import engine
from faultcheck import REAL
ASSUME = ["The OpenMP runtime is the simulator's: one real thread per worker, a baton, and a seeded scheduler that may switch at every instrumented memory access, lock, barrier, loop chunk and file operation.",
          "Interleavings are sequentially consistent; effects of weaker memory orders are covered only through the data-race detector (any unsynchronised conflicting access is a violation).",
          "Accesses made inside libraries (libc, FFTW, NetCDF) are not preemption points; known hidden state of strtok, rand and FFTW planning is modelled.",
          "The reference is the same tree with one worker and no preemption."]
STUB = ["OpenMP runtime (own deterministic implementation of the GOMP/omp interface)", "scheduler", "clock", "loop-chunk distribution (guided, minimal or random chunks)"]

def conf_for(r, tsan):
    n = r.choice([2, 2, 3, 3, 4, 5, 8]) if tsan else r.choice([2, 3, 4, 5, 7, 8, 13, 16, 24, 32, 64])
    pol = r.choice([0, 0, 0, 1, 1, 2, 4, 5, 6]) if tsan else r.choice([0, 0, 1, 2, 4, 5, 6])
    c = dict(seed=r.randrange(1 << 40), nprocs=n, policy=pol, chunk=r.choice([0, 0, 1, 1, 2]), maxsteps=1500000000)
    if tsan: c.update(race=1, mean=r.choice([3, 20, 100, 400, 2000, 20000, 0]), pct_d=r.choice([2, 3, 5, 10, 30]))
    if tsan and n > 4 and c["mean"] == 3: c["mean"] = 50
    return c

def judge(prep, q, t, pid, variant):
    exe = build.build_path(variant); ref, reft = prep.reference(variant)
    scn = prep.scn; out = []; mod = scn["module"]; rep = q.rep or {}
    def add(kind, text): out.append(("%s %s %s" % (pid, mod, kind), "`grt %s` with %s workers: %s" % (" ".join(q.argv), rep.get("maxthreads"), text)))
    if rep.get("races"):
        a, b = sorted([addr(exe, rep["race_pc1"]), addr(exe, rep["race_pc2"])])
        add("data-race", "%d unsynchronised conflicting accesses, first between %s and %s" % (rep["races"], a, b))
    if rep.get("deadlock"): add("deadlock", "the workers block each other for ever")
    elif q.hang or rep.get("steplimit"): add("no-termination", "not finished after %s steps" % rep.get("steps"))
    elif q.rc != 0: add("failure", "exit status %s: %s" % (q.rc, q.err[-200:].decode("utf-8", "replace")))
    else:
        for p, k in tdiff(reft, t):
            if k == "differs" and p.endswith(".nc"):
                d = nc_close(reft[p], t[p], scn["tol"] or 0.)
                if d is None: continue
                add("result-differs", "%s: %s" % (p, d)); break
            if os.path.basename(p) == "command" and k == "differs" and strip_p(reft[p]) == strip_p(t[p]): continue
            add("result-differs", "%s %s" % (p, k)); break
        if scn["stdout"]:
            if q.out != ref.out: add("stdout-differs", "table on standard output differs")
        else:
            m0, p0 = logsplit(ref.out); m1, p1 = logsplit(q.out)
            if collections.Counter(m0) != collections.Counter(m1):
                d = list((collections.Counter(m0) - collections.Counter(m1)).items())[:1] + list((collections.Counter(m1) - collections.Counter(m0)).items())[:1]
                add("log-differs", "messages lost or added: %r" % d)
            elif segs(p0) != segs(p1): add("progress-differs", "progress %s instead of %s" % (p1[-5:], p0[-5:]))
    return out

def segs(p):
    """progress series: split after each 100 %; each must rise through the same set of values"""
    out, cur = [], []
    for x in p:
        if cur and x < cur[-1]: return "not monotone"
        if not cur or x != cur[-1]: cur.append(x)
        if x == 100: out.append(cur); cur = []
    return out + ([cur] if cur else [])

def strip_p(b): return re.sub(rb" -P[0-9]+", b"", b) if isinstance(b, bytes) else b

HASP = ("greenfn", "kernel", "eigenv", "modsum")
def cmd_for(prep, n, use_p): return prep.cmd + ["-P%d" % n] if use_p and prep.scn["module"] in HASP else prep.cmd

def explore(r, o, tier, pid, gens, ntsan, nplain):
    name = r.choice(gens); scn = gens_call(name, r)
    try: prep = Prep(scn, trace=False, note=o.note)
    except Bad as e: o.skipped += 1; o.st["skipped:" + name] += 1; return
    with prep:
        o.st["scenario:" + scn.module] += 1
        for i in range(ntsan + nplain):
            tsan = i < ntsan
            conf = conf_for(r, tsan); use_p = scn["module"] in HASP and r.random() < .4; n = conf["nprocs"]
            if use_p: conf["nprocs"] = r.choice([1, 2, 8])
            v = "tsan" if tsan else "plain"
            d = dict(scn=scn, conf=conf, variant=v, p=n if use_p else 0)
            q, t = prep.run(conf, cmd=cmd_for(prep, n, use_p), exe=build.build_path(v)); o.note(q)
            rep = q.rep or {}
            o.st["variant:" + v] += 1; o.st["policy:%d" % conf["policy"]] += 1; o.st["workers:%d" % rep.get("maxthreads", 0)] += 1
            if rep.get("regions") and rep.get("maxthreads", 0) > 1: o.distinct.add(rep["sched_hash"])
            else: o.st["runs_without_parallel_work"] += 1
            if i == 0: o.samples.append(dict(cmd=" ".join(q.argv), workers=rep.get("maxthreads"), steps=rep.get("steps"), switches=rep.get("switches"), chunks=rep.get("iters")))
            for sig, text in judge(prep, q, t, pid, v): o.violation(sig, text, d)
            if not rep.get("regions") or rep.get("maxthreads", 0) < 2: break      # nothing to schedule in this scenario

def gens_call(name, r): return work.ALL[name](r)

def execute(desc, pid):
    p = Cache.get(desc["scn"], trace=False); conf = dict(desc["conf"]); exe = build.build(desc["variant"])
    if desc.get("schedule") is not None:
        f = os.path.join(p.aux, "in.sched")
        with open(f, "w") as fp: fp.write("".join("%d %d\n" % tuple(x) for x in desc["schedule"]))
        conf["sched_in"] = f
    q, t = p.run(conf, cmd=cmd_for(p, desc["p"], desc["p"]), exe=exe)
    return judge(p, q, t, pid, desc["variant"])

def record(desc):
    """the schedule of a run as a list of switches"""
    p = Cache.get(desc["scn"], trace=False); conf = dict(desc["conf"]); f = os.path.join(p.aux, "out.sched"); conf["sched_out"] = f
    p.run(conf, cmd=cmd_for(p, desc["p"], desc["p"]), exe=build.build(desc["variant"]))
    return [[int(x) for x in l.split()] for l in open(f)]

def shrink(desc):
    c = desc["conf"]
    if desc.get("schedule") is None:
        n = desc["p"] or c["nprocs"]
        if n > 2:
            for k in (2, n // 2, n - 1):
                if k >= 2 and k < n: yield dict(desc, p=k) if desc["p"] else dict(desc, conf=dict(c, nprocs=k))
        for m in (0, 20000, 2000):
            if c.get("mean", 0) and (m == 0 or m > c["mean"]): yield dict(desc, conf=dict(c, mean=m))
        if c.get("chunk"): yield dict(desc, conf=dict(c, chunk=0))
        s = record(desc)
        if len(s) <= 20000: yield dict(desc, schedule=s)
        return
    s = desc["schedule"]; k = max(1, len(s) // 2)
    while k >= 1:
        for i in range(0, len(s), k): yield dict(desc, schedule=s[:i] + s[i + k:])
        k //= 2
