"""P04: results depend only on inputs, not on memory contents, clock or directory order"""
from faultcheck import *
import collections
del shrink
ID = "P04"; LEVEL = "exploration"; VARIANTS = ["plain", "patt", "zero"]
CASES = dict(quick=20000, thorough=300000); BUDGET = dict(quick=75, thorough=1500)
RULE = "distinct (scenario, environment) pairs: build variant, heap and stack fill, clock behaviour, directory order, environment variables"
ASSUME = ["Heap memory is filled with seeded bytes at every allocation and on release; the initial stack of every thread is filled with seeded bytes; automatic variables are additionally set to a fixed pattern or to zero by the compiler in two of the three builds (-ftrivial-auto-var-init).",
          "The reference is the run with untouched allocator memory, a steadily advancing clock and the file system's own directory order (build variants are compared through their own runs as well as with each other).",
          "Reported run times may differ; they are removed from the log before it is compared."]
GENS = ["greenfn"] * 4 + ["syn"] * 5 + ["tensor"] * 3 + ["kernel", "eigenv", "eigenv_x", "eigenv_x", "eigenv_x", "eigenfn", "eigenfn", "modsum", "modsum", "static_greenfn", "static_greenfn", "static_syn", "static_syn", "static_ff", "static_ff", "static_tensor", "static_tensor", "okada", "okada", "travt", "travt", "lamb1", "sac2asc", "disp2asc", "ker2asc"]
STRAY = [["OMP_NUM_THREADS", "3"], ["OMP_SCHEDULE", "dynamic,1"], ["TZ", "Asia/Shanghai"], ["COLUMNS", "20"], ["TMPDIR", "/nonexistent"], ["LANG", "de_DE.UTF-8"]]

def env_for(r):
    c = dict(seed=r.randrange(1 << 30))
    if r.random() < .85: c["garbage"] = r.choice([0, r.randrange(1, 1 << 30), r.randrange(1, 1 << 30), r.randrange(1, 1 << 30)])
    if r.random() < .6: c["clock"] = r.randint(1, 5)
    if r.random() < .6: c["dirseed"] = r.randrange(1, 1 << 30)
    return c, r.choice(["plain", "plain", "patt", "patt", "zero"]), ([r.choice(STRAY)] if r.random() < .2 else [])

def run(prep, desc):
    w = prep.dir()
    q = sim(build.build_path(desc["variant"]), prep.cmd, w, prep.aux, conf=desc["conf"], env=dict(desc["env"]), tag="f"); t = tree(w); rmtree(w)
    return q, t

def judge(prep, desc, q, t):
    scn = prep.scn; out = []; mod = scn["module"]; ref, reft = prep.ref, prep.reft
    where = "%s build, %s%s" % (desc["variant"], " ".join("%s=%s" % kv for kv in sorted(desc["conf"].items()) if kv[0] != "seed"), "".join(" env %s=%s" % tuple(e) for e in desc["env"]))
    def add(kind, text): out.append(("%s %s %s" % (ID, mod, kind), "`grt %s` (%s): %s" % (" ".join(prep.cmd), where, text)))
    if q.hang or (q.rep and (q.rep["steplimit"] or q.rep["deadlock"])): add("no-termination", "does not end"); return out
    if (q.rc == 0) != (ref.rc == 0): add("status-differs", "exit %s instead of %s: %s" % (q.rc, ref.rc, q.err[-200:].decode("utf-8", "replace"))); return out
    for p, k in tdiff(reft, t): add("result-differs %s %s" % (pclass(scn, p), k), "%s %s" % (p, k)); return out
    if scn["stdout"]:
        if q.out != ref.out: add("stdout-differs", "the printed table differs")
    elif logsplit(q.out)[0] != logsplit(ref.out)[0]:
        a, b = logsplit(ref.out)[0], logsplit(q.out)[0]; d = [x for x in zip(a, b) if x[0] != x[1]][:1] or [a[len(b):][:1], b[len(a):][:1]]
        add("log-differs", "messages differ: %r" % d)
    return out

def explore(r, o, tier):
    name = r.choice(GENS); scn = work.ALL[name](r)
    try: prep = Prep(scn, trace=False, note=o.note)
    except Bad: o.skipped += 1; o.st["skipped:" + name] += 1; return
    with prep:
        o.st["scenario:" + scn.module] += 1
        for i in range(8):
            c, v, e = env_for(r); desc = dict(scn=scn, conf=c, variant=v, env=e)
            q, t = run(prep, desc); o.note(q)
            o.st["variant:" + v] += 1; o.st["memory:" + ("untouched" if "garbage" not in c else "zero" if c["garbage"] == 0 else "garbage")] += 1; o.st["clock:%d" % c.get("clock", 0)] += 1; o.st["directory-order:" + ("shuffled" if "dirseed" in c else "native")] += 1
            o.distinct.add(engine.h(prep.cmd, sorted(c.items()), v, e))
            if i == 0: o.samples.append(dict(cmd=" ".join(prep.cmd), conf=c, variant=v, env=e, exit=q.rc))
            for sig, text in judge(prep, desc, q, t): o.violation(sig, text, desc)

def execute(desc):
    for v in VARIANTS: build.build(v)
    p = Cache.get(desc["scn"], trace=False); q, t = run(p, desc); return judge(p, desc, q, t)

def shrink(desc):
    for k in ("clock", "dirseed", "garbage"):
        if k in desc["conf"]: yield dict(desc, conf={a: b for a, b in desc["conf"].items() if a != k})
    if desc["env"]: yield dict(desc, env=[])
    if desc["variant"] != "plain": yield dict(desc, variant="plain")
