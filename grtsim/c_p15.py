"""P15: library functions called from several threads, in any order"""
from schedcheck import conf_for, ASSUME as SASSUME
from prep import *
import engine, work, collections
ID = "P15"; LEVEL = "exploration"; VARIANTS = ["tsan"]
CASES = dict(quick=20000, thorough=2000000); BUDGET = dict(quick=70, thorough=1200)
RULE = "distinct schedules (hash of the context switches) of phases with two or more caller threads, plus distinct call histories"
ASSUME = ["Caller threads are threads of the simulator; it may switch at every instrumented memory access and file operation of the library code.",
          "Interleavings are sequentially consistent; weaker memory orders are covered through the data-race detector.",
          "Only valid arguments are generated: the library ends the process on invalid ones, which is its documented error path for the programs.",
          "The reference of each call is the same call made alone in a fresh process of the same build.", "The Python interpreter itself is not part of these runs: the ctypes entry points are called directly."]
REAL = ["PyGRT's library functions (unmodified C sources)", "libc"]
STUB = ["caller threads, scheduler, clock, allocator garbage", "Python's ctypes layer (replaced by a C harness with the same signatures)"]

def model(r): return r.choice([work.MODELS["milrow"], work.MODELS["killari"], work.rand_model(r), work.rand_model(r), work.MODELS["seafloor"]])
def g(x): return "%.6g" % x

def pool(r, names):
    """a few argument tuples, many of them near-duplicates of each other"""
    P = []
    for _ in range(r.randint(3, 8)):
        k = r.choice(["travt"] * 3 + ["trap", "parab", "ricker", "lamb", "lamb"])
        if k == "travt":
            c = [k, r.choice(names), g(r.choice([0.1, 1.3, 2, 3.3])), g(r.choice([0, 0.05, 1.3])), [g(x) for x in sorted(r.sample([1, 2, 3.5, 7, 10, 25, 80, 150], r.randint(1, 4)))]]
        elif k == "trap":
            t = sorted(r.choice([.2, .3, .5, .8, 1., 1.5]) for _ in range(3)); t[2] += .35; c = [k, r.choice(["0.01", "0.05", "0.1"]), g(t[0]), g(max(t[0], t[1])), g(t[2])]
        elif k == "parab": c = [k, r.choice(["0.01", "0.05", "0.1"]), g(r.choice([.35, .5, 1., 1.44]))]
        elif k == "ricker": c = [k, r.choice(["0.01", "0.05"]), g(r.choice([1, 2, 3.3, 5]))]
        else: c = [k, r.choice(["0.25", "0.3", "0.12", "0.4", "0.251"]), r.choice(["0", "30", "31", "200", "90"]), [g(x) for x in sorted(r.sample([0.1, .4, .5, .55, .6, .7, .9, 1.0, 1.05, 1.2, 1.7], r.randint(1, 5)))]]
        P.append(c)
        if r.random() < .5:
            d = [x if not isinstance(x, list) else list(x) for x in c]; i = r.randrange(1, len(d))
            if k == "travt" and i == 1: d[1] = r.choice(names)
            elif isinstance(d[i], list): d[i][r.randrange(len(d[i]))] = g(float(d[i][0]) * .9); d[i] = sorted(d[i], key=float)
            elif k == "travt" and i in (2, 3): d[i] = g(float(d[i]) + .11)
            elif k == "lamb": d[i] = g(min(.45, float(d[i]) * 1.1)) if i == 1 else g(float(d[i]) * .9)
            P.append(d)
    return P

def gen(r):
    names = ["mA", "mB", "mC"][:r.choice([1, 2, 3])]; files = {n: model(r) for n in names}; files["vA"] = model(r); P = pool(r, names)
    shallow = min((float(c[2]) for c in P if c[0] == "travt"), default=0)
    for n in files:
        if "seafloor" in n: pass
    phases = []
    for i in range(r.choice([1, 1, 2, 3])):
        n = r.choice([2, 2, 3, 4, 6]) if i == 0 or r.random() < .7 else 1
        phases.append([n, [[r.choice(P) for _ in range(r.randint(1, 4))] for _ in range(n)]])
        if r.random() < .3: phases.append([1, [[["copy", "vA", r.choice(names)]]]])
        if r.random() < .3: phases.append([1, [[r.choice(P) for _ in range(r.randint(1, 4))]]])
    return dict(files=files, phases=phases)

def line(c): return " ".join([c[0]] + c[1:-1] + ([c[-1]] if not isinstance(c[-1], list) else [str(len(c[-1]))] + c[-1]))
def script(phases, hold=0):
    L = ["H %d" % hold]
    for n, th in phases:
        L.append("P %d" % n)
        for t, cs in enumerate(th): L.append("T %d" % t); L += [line(c) for c in cs]
    return "\n".join(L) + "\n"

class Lib:
    def __init__(self, note=None): self.exe = build.build_path("tsan"); self.sc = Scratch("l"); self.aux = os.path.join(self.sc.path, "x"); os.mkdir(self.aux); self.n = 0; self.note = note; self.alone = {}
    def close(self): rmtree(self.sc.path)
    def run(self, files, text, conf, sched=None):
        self.n += 1; w = os.path.join(self.sc.path, "w%d" % self.n); os.mkdir(w); put(w, files); put(self.aux, {"calls": text})
        q = sim(self.exe, ["__lib", os.path.join(self.aux, "calls")], w, self.aux, conf=dict(dict(maxsteps=60000000, cpu=60), **conf), tag="l"); rmtree(w)
        if self.note: self.note(q)
        return q
    def ref(self, files, c):
        k = (line(c), files.get(c[1]) if c[0] == "travt" else None)
        if k not in self.alone: q = self.run(files, "P 1\nT 0\n" + line(c) + "\n", dict(nprocs=1)); self.alone[k] = (q.rc, q.out)
        return self.alone[k]

def judge(lib, desc):
    conf = dict(desc["conf"]); 
    if desc.get("schedule") is not None:
        f = os.path.join(lib.aux, "in.sched"); open(f, "w").write("".join("%d %d\n" % tuple(x) for x in desc["schedule"])); conf["sched_in"] = f
    if desc.get("record"): conf["sched_out"] = os.path.join(lib.aux, "out.sched")
    # expected results, with the model contents current at each call
    files = dict(desc["files"]); exp = []
    for n, th in desc["phases"]:
        for cs in th:
            for c in cs:
                if c[0] == "copy": files = dict(files); files[c[2]] = files[c[1]]; exp.append((c, 0, b"@0 \n")); continue
                rc, o = lib.ref(files, c)
                if rc != 0: return None, None      # not a valid argument set
                exp.append((c, rc, o))
    q = lib.run(desc["files"], script(desc["phases"], desc.get("hold", 0)), conf); out = []; rep = q.rep or {}
    def add(k, t): out.append(("P15 " + k, t))
    if rep.get("races"):
        a, b = sorted([addr(lib.exe, rep["race_pc1"]), addr(lib.exe, rep["race_pc2"])]); add("data-race", "%d unsynchronised conflicting accesses between concurrent library calls, first between %s and %s" % (rep["races"], a, b))
    if rep.get("deadlock") or rep.get("steplimit") or q.hang: add("no-termination", "the calls do not all return")
    elif q.rc != 0: add("failure", "calls that succeed alone end the process (status %s): %s" % (q.rc, q.err[-200:].decode("utf-8", "replace")))
    else:
        got = q.out.split(b"\n@"); got = [x.lstrip(b"@") for x in got]
        for i, (c, rc, o) in enumerate(exp):
            a = got[i].split(b" ", 1)[1].strip() if i < len(got) and b" " in got[i] else b"?"; b = o.split(b" ", 1)[1].strip()
            if a != b: add("result-differs %s" % c[0], "call %d (%s) returns another result than alone" % (i, line(c)[:160])); break
    return out, q

def explore(r, o, tier):
    desc0 = gen(r); lib = Lib(o.note)
    try:
        for i in range(3):
            conf = conf_for(r, True); conf["maxsteps"] = 60000000; conf["garbage"] = r.choice([-1, 0, r.randrange(1, 1 << 30)])
            desc = dict(desc0, conf=conf, hold=r.choice([0, 0, 1, 3, 99]))
            out, q = judge(lib, desc)
            if out is None: o.skipped += 1; o.st["skipped:invalid-arguments"] += 1; return
            o.st["caller_threads:%d" % max(n for n, _ in desc["phases"])] += 1; o.st["policy:%d" % conf["policy"]] += 1
            for n, th in desc["phases"]:
                for cs in th:
                    for c in cs: o.st["call:" + c[0]] += 1
            o.distinct.add(q.rep["sched_hash"] if q.rep else 0); o.distinct.add(engine.h(desc0["phases"]))
            if i == 0: o.samples.append(dict(script=script(desc["phases"]).split("\n")[:8], steps=q.rep and q.rep["steps"], switches=q.rep and q.rep["switches"]))
            for sig, text in out: o.violation(sig, text, desc)
    finally: lib.close()

def execute(desc):
    lib = Lib()
    try: return judge(lib, desc)[0] or []
    finally: lib.close()

def record(desc):
    lib = Lib()
    try: judge(lib, dict(desc, record=True)); return [[int(x) for x in l.split()] for l in open(os.path.join(lib.aux, "out.sched"))]
    finally: lib.close()

def shrink(desc):
    ph = desc["phases"]
    if desc.get("schedule") is None:
        if desc.get("hold"): yield dict(desc, hold=0)
        for i in range(len(ph)):
            if len(ph) > 1: yield dict(desc, phases=ph[:i] + ph[i + 1:])
            n, th = ph[i]
            for t in range(len(th)):
                for k in range(len(th[t])): yield dict(desc, phases=ph[:i] + [[n, th[:t] + [th[t][:k] + th[t][k + 1:]] + th[t + 1:]]] + ph[i + 1:])
            if n > 2 and not th[-1]: yield dict(desc, phases=ph[:i] + [[n - 1, th[:-1]]] + ph[i + 1:])
        if desc["conf"].get("garbage", -1) != -1: yield dict(desc, conf=dict(desc["conf"], garbage=-1))
        s = record(desc)
        if len(s) < 5000: yield dict(desc, schedule=s)
        return
    s = desc["schedule"]; k = max(1, len(s) // 2)
    while k >= 1:
        for i in range(0, len(s), k): yield dict(desc, schedule=s[:i] + s[i + k:])
        k //= 2
