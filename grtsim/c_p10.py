"""P10: an interrupted run can be repeated"""
from faultcheck import *
import faultcheck as fc
ID = "P10"; LEVEL = "exploration"; VARIANTS = ["plain"]
CASES = dict(quick=20000, thorough=200000); BUDGET = dict(quick=75, thorough=1500)
RULE = "distinct (module, crash points as operation kind and file class, torn or clean, number of crashes, outcome of the rerun) combinations among histories in which every crash fired"
ASSUME = ["A crash ends the process at a file-system operation; completed writes survive, the operation at the crash point is lost or, for a write, cut short at a seeded point.",
          "Reordering of completed writes across a power failure is not modelled (the property speaks of the process being killed).",
          "The reference is the fault-free run of the same tree in a fresh copy of the same directory."]
GENS = ["greenfn"] * 3 + ["kernel", "kernel", "modsum", "modsum", "syn", "syn", "tensor", "eigenv", "eigenfn", "static_greenfn", "static_greenfn", "static_syn", "static_ff", "static_tensor", "static_tensor", "okada", "syn_l", "tensor_l", "static_syn_l", "static_tensor_l", "static_tensor_l", "okada_l", "eigenfn_l"]
F_CRASH_, F_TORN_ = F_CRASH, F_TORN

def plan(r, ops, scn=None, libops=[]):
    """one interruption: [op, kind, arg, 0]; op 0 never comes: a complete earlier run. A crash, a torn write, or a fault that makes the run fail"""
    if r.random() < .07: return [0, F_CRASH, 0, 0]
    if scn and r.random() < .35:
        f = pick_faults(r, ops + libops, scn, lambda k, p: k in ("open_w", "write", "close_w", "mkdir", "lib_w", "read", "open_r", "stdout", "readdir", "lib_r"))
        if f: return f[0]
    ws = [o for o in ops if o[1] == "write"]
    if ws and r.random() < .45:
        o = r.choice(ws); return [o[0], F_TORN, r.choice([0, 1, 500, 999, r.randint(0, 999)]), 0]
    o = r.choice(ops)
    if r.random() < .5:      # spread over kinds of operations
        k = r.choice(sorted({(x[1], x[3].rsplit(".", 1)[-1]) for x in ops})); o = r.choice([x for x in ops if (x[1], x[3].rsplit(".", 1)[-1]) == k])
    return [o[0], F_CRASH, 0, 0]

def history(prep, crashes, workers):
    """runs the interrupted runs and the final one; returns (list of runs, tree, states after each crash)"""
    w = prep.dir(); qs = []
    for i, c in enumerate(crashes):
        q, t = prep.run(dict(faults=[c], nprocs=workers[i], seed=i + 1), w=w, tag="c%d" % i); qs.append(q)
    q, t = prep.run(dict(nprocs=workers[-1]), w=w, tag="last"); qs.append(q); rmtree(w)
    return qs, t

def judge(prep, qs, t):
    scn = prep.scn; mod = scn["module"]; out = []; q = qs[-1]
    hist = "; ".join(",".join(x.rep["fault_info"]) if x.rep and x.rep["fault_info"] else "exit %s" % x.rc for x in qs[:-1])
    where = " ".join(fault_class(scn, x) for x in qs[:-1] if x.rep and x.rep["fault_info"])[:120]
    def add(kind, text): out.append(("P10 %s %s" % (mod, kind), "`grt %s` interrupted (%s) and run again: %s" % (" ".join(prep.cmd), hist, text)))
    if q.hang or (q.rep and (q.rep["steplimit"] or q.rep["deadlock"])): add("rerun-hangs", "does not end"); return out
    if q.rc != 0:
        if not scn["inplace"] or any(t.get(p) != prep.reft.get(p) for p in scn["outs"]): add("rerun-fails after %s" % where, "exit %s: %s" % (q.rc, q.err[-200:].decode("utf-8", "replace")))
        return out
    for p, k in tdiff(prep.reft, t):
        v = prep.reft.get(p)
        if os.path.basename(p) == "command" and k == "differs":
            if isinstance(t[p], bytes) and t[p].endswith(v.split(b"\n")[-2] + b"\n"): continue
        if scn["tol"] and k == "differs" and p.endswith(".nc") and nc_close(v, t[p], scn["tol"]) is None: continue      # summation order
        add("rerun-%s %s" % (k, pclass(scn, p)), "%s %s" % (p, k)); break
    return out

def explore(r, o, tier):
    name = r.choice(GENS); scn = {**work.ALL, **work.LONG}[name](r)
    try: prep = Prep(scn, note=o.note)
    except Bad: o.skipped += 1; o.st["skipped:" + name] += 1; return
    with prep:
        ops = prep.ref.ops; o.st["scenario:" + scn.module] += 1
        if not ops: o.skipped += 1; return
        for i in range(6):
            n = r.choice([1, 1, 1, 2, 2, 3]); cr = [plan(r, ops, scn, prep.ref.libops) for _ in range(n)]; wk = [r.choice([1, 1, 2, 4]) for _ in range(n + 1)]
            if scn["inplace"]: wk = [1] * (n + 1)
            qs, t = history(prep, cr, wk)
            for q in qs: o.note(q)
            fired = all(q.rep and (q.rep["fault_info"] or not c[0]) for q, c in zip(qs, cr)); o.st["all_crashes_fired" if fired else "some_crash_not_reached"] += 1
            o.st["crashes_in_history:%d" % n] += 1; o.st["rerun:" + ("success" if qs[-1].rc == 0 else "refused")] += 1
            if fired: o.distinct.add(engine.h(scn.module, [fault_class(scn, q) for q in qs[:-1]], qs[-1].rc == 0))
            if i == 0: o.samples.append(dict(cmd=" ".join(prep.cmd), crashes=[q.rep["fault_info"] if q.rep else [] for q in qs[:-1]], rerun_exit=qs[-1].rc))
            for sig, text in judge(prep, qs, t): o.violation(sig, text, dict(scn=scn, crashes=cr, workers=wk))

def execute(desc):
    p = Cache.get(desc["scn"]); return judge(p, *history(p, desc["crashes"], desc["workers"]))

def shrink(desc):
    c, w = desc["crashes"], desc["workers"]
    if len(c) > 1:
        for i in range(len(c)): yield dict(desc, crashes=c[:i] + c[i + 1:], workers=w[:i] + w[i + 1:])
    if any(x != 1 for x in w): yield dict(desc, workers=[1] * len(w))
    for i, x in enumerate(c):
        if x[1] == F_TORN: yield dict(desc, crashes=c[:i] + [[x[0], F_CRASH, 0, 0]] + c[i + 1:])
