"""P18: a run that cannot do its work says so and ends by itself"""
from faultcheck import *
import faultcheck as fc
ID = "P18"; LEVEL = "exploration"; VARIANTS = ["plain"]
CASES = dict(quick=20000, thorough=1000000); BUDGET = dict(quick=70, thorough=1200)
RULE = "distinct (module, operation kind and file class hit with fault kind and argument, or input file class with kind and place of damage, workers, way of ending) combinations"
ASSUME = ["Failures are those of files, directories and streams (every operation kind of the run, one to three per run) and inputs that are missing, cut, emptied, replaced by another file of the run or, for text, lack a line or hold a malformed one. Wrong bytes inside an otherwise whole binary file (bit rot) are not modelled.",
          "Failing allocations are left out (P09 asks only that they do not turn into a wrong result; the program does not check every allocation).",
          "Physically absurd numbers in a text input (a velocity of 1e-300) are left out: the work they ask for is finite but beyond any bound.",
          "A text input that is still well-formed after the damage may describe another medium; whether the numerical work on it is bounded is not judged (once the first parallel region of the run has begun).",
          "A run ends if it needs no more than 60 s of processor time and 2e9 scheduling steps; the fault-free runs of the same commands need less than a second."]
GENS = sorted(work.ALL) + sorted(work.LONG) + ["greenfn"] * 3 + ["kernel", "modsum", "syn", "tensor", "static_greenfn"]
def want(op, path): return True

def garble(r, t, scn):
    """[path, kind, a, b]: damage of one file of the starting state"""
    fs = sorted(p for p, v in t.items() if isinstance(v, bytes) and os.path.basename(p) != "command")
    if not fs: return None
    near = [p for p in fs if p in scn["files"] or any(os.path.basename(p) in a or a.lstrip("-GCU") in p for a in scn["cmd"])]
    p = r.choice(near if near and r.random() < .7 else fs); v = t[p]; k = r.random(); n = len(v)
    if k < .1: return [p, "missing", 0, 0]
    if k < .5: return [p, "cut", max(0, r.choice([0, n - 1, r.randrange(n + 1), r.randrange(n + 1), cut_at(r, v)])), 0]
    if k < .58:
        q = r.choice(fs); return [p, "replaced", q, 0] if q != p else None
    if p in scn["files"]:
        L = v.count(b"\n") or 1; i = r.randrange(L); return [p, r.choice(["line-lost", "line-twice", "line-empty", "word-lost", "word-junk", "crlf", "nul"]), i, r.randrange(12)]
    return [p, "cut", n - min(n, r.randint(1, 64)), 0]

def apply(t, d):
    t = dict(t); p, k, a, b = d; v = t[p]
    if k == "missing": del t[p]; return t
    if k == "cut": t[p] = v[:a]; return t
    if k == "replaced": t[p] = t[a]; return t
    L = v.splitlines(True)
    if not L: return t
    i = a % len(L)
    if k == "line-lost": del L[i]
    elif k == "line-twice": L.insert(i, L[i])
    elif k == "line-empty": L[i] = b"\n"
    elif k == "crlf": L[i] = L[i].rstrip(b"\n") + b"\r\n"
    elif k == "nul": L[i] = L[i].replace(b" ", b"\0", 1)
    else:
        w = L[i].split()
        if w:
            j = b % len(w)
            if k == "word-lost": del w[j]
            else: w[j] = [b"x", b"-", b"1.2.3", b"%n%s", b"nan", b"#"][b % 6]
        L[i] = b" ".join(w) + b"\n"
    t[p] = b"".join(L); return t

def run(prep, desc):
    if "damage" in desc:
        w = prep.dir(apply(prep.base, desc["damage"])); q, t = prep.run(dict(desc["conf"], maxops=200000, cpu=60), w=w); rmtree(w); note = "input %s: %s %s" % tuple(desc["damage"][:3])
    else:
        q, t = prep.run(dict(desc["conf"], cpu=60)); note = "fault: " + ("; ".join(q.rep["fault_info"]) if q.rep else "?")
    return q, note

def how(q, computing=False):
    if q.hang or (q.rep and q.rep["steplimit"]): return None if computing and q.rep and q.rep["maxthreads"] else "does-not-end"
    if q.rep and q.rep["deadlock"]: return "deadlock"
    if q.rc < 0: return "signal-%d" % -q.rc
    if q.rc > 0 and not ANSI.sub(b"", q.err).strip(): return "silent-failure"
    return None

def judge(prep, desc, q, note):
    k = how(q, "damage" in desc)
    if k is None: return []
    scn = prep.scn; d = desc.get("damage")
    where = fault_class(scn, q) if not d else "%s of %s" % (d[1], pclass(scn, d[0]))
    return [("P18 %s %s %s" % (scn["module"], k, where), "`grt %s` (%s workers): %s (exit %s); %s" % (" ".join(prep.cmd), desc["conf"].get("nprocs", 1), k, q.rc, note))]

def explore(r, o, tier):
    name = r.choice(GENS); scn = {**work.ALL, **work.LONG}[name](r)
    try: prep = Prep(scn, note=o.note)
    except Bad: o.skipped += 1; o.st["skipped:" + name] += 1; return
    with prep:
        o.st["scenario:" + scn.module] += 1
        for i in range(8):
            conf = dict(nprocs=r.choice([1, 1, 2, 4, 8]), seed=r.randrange(1 << 30), policy=r.choice([0, 1, 2, 3, 4, 5]))
            if r.random() < .35:
                d = garble(r, prep.base, scn)
                if d is None: continue
                desc = dict(scn=scn, conf=conf, damage=d)
            else:
                fs = pick_faults(r, prep.ref.ops + prep.ref.libops, scn, want, r.choice([1, 1, 1, 2, 3]), prep.base)
                if not fs: continue
                desc = dict(scn=scn, conf=dict(conf, faults=fs))
            q, note = run(prep, desc); o.note(q)
            o.st["damaged_inputs" if "damage" in desc else "faulty_runs_fired" if q.rep and q.rep["fault_info"] else "faulty_runs_not_fired"] += 1
            if "damage" in desc: o.st["fault:input-" + desc["damage"][1]] += 1
            end = how(q, "damage" in desc) or ("success" if q.rc == 0 else "failure"); o.st["ends:" + end] += 1
            o.distinct.add(engine.h(scn.module, fault_class(scn, q) if "damage" not in desc else [pclass(scn, desc["damage"][0])] + desc["damage"][1:3], conf["nprocs"], end))
            if i == 0: o.samples.append(dict(cmd=" ".join(prep.cmd), what=note, exit=q.rc))
            for sig, text in judge(prep, desc, q, note): o.violation(sig, text, desc)

def execute(desc):
    p = Cache.get(desc["scn"]); q, note = run(p, desc); return judge(p, desc, q, note)

def shrink(desc):
    c = desc["conf"]
    if c.get("nprocs", 1) != 1: yield dict(desc, conf=dict(c, nprocs=1))
    fs = c.get("faults", [])
    if len(fs) > 1:
        for i in range(len(fs)): yield dict(desc, conf=dict(c, faults=fs[:i] + fs[i + 1:]))
