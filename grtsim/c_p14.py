"""P14: several commands at the same time into one output root; every file operation is one step of a seeded scheduler"""
import select, time, itertools
from faultcheck import *
import faultcheck as fc, collections
from work import fmt, MODELS, rand_model, kopt
del shrink
ID = "P14"; LEVEL = "exploration"; VARIANTS = ["plain"]
CASES = dict(quick=1500, thorough=150000); BUDGET = dict(quick=75, thorough=1500)
RULE = "distinct interleavings (hash of the sequence of processes and their file operations) in which at least two processes took turns"
ASSUME = ["Processes interact only through the simulated disk; one file operation (libc/system-call level) is atomic, everything between two operations of a process is local.",
          "A killed process dies between two of its file operations.",
          "The reference of each command is its run alone from the same initial state; commands write disjoint entries of one model (they share the root, the model copy and the command log) or separate output directories."]
POL = ["uniform", "sticky", "pct", "lockstep", "chase"]

def gen(r):
    files = {}; m = r.choice(["milrow", "m_1", "mod", "a.mod"]); files[m] = MODELS["milrow"] if m == "milrow" else rand_model(r, True)
    z = [0.0, 0.35, 0.9, 1.3, 2.0, 2.4]; R = [1, 2, 3.5, 5, 7.25, 8]; r.shuffle(z); r.shuffle(R)
    setup = []; cmds = []; n = r.choice([2, 2, 3, 3, 4]); root = r.choice(["GRN", "GRN", "sub/GRN"]); kinds = []
    if "/" in root: files["sub/keep"] = "x\n"
    e = "-e" if r.random() < .4 else None; bydepth = r.random() < .5; mix = r.random()
    fam = "greenfn" if mix < .35 else "mixed" if mix < .53 else "modsum" if mix < .61 else "kernel" if mix < .69 else "syn" if mix < .8 else "post" if mix < .88 else "nc"
    if fam == "post": return gen_post(r, files, m, z)
    if fam == "nc": return gen_nc(r, files, m, z)
    D0 = "-D%s/%s" % (fmt(z[4]), fmt(z[5]))
    def g(D, Rs, out=root, stats=False): return ["greenfn", "-M" + m, D, "-N%d/0.1" % r.choice([6, 8, 12]), Rs, "-O" + out, kopt(r)] + ([e] if e else []) + (["-S"] if stats else []) + (["-s"] if r.random() < .5 else [])
    pre = r.random() < .45 or fam == "syn"
    if pre: setup.append(g(D0, "-R4,6"))
    if fam in ("mixed", "modsum"): setup.append(["eigenv", "-M" + m, "-S" + r.choice("RL"), "-F0/1/0.25", "-Cph.nc", "-N1"])
    if fam == "syn": setup[0] = ["greenfn", "-M" + m, D0, "-N8/0.1", "-R4,6", "-O" + root, "-K+k5"] + ([e] if e else [])
    for i in range(n):
        D = "-D%s/%s" % (fmt(z[i]), fmt(z[5])) if bydepth or fam in ("mixed", "kernel") else "-D%s/%s" % (fmt(z[0]), fmt(z[5]))
        Rs = "-R" + (fmt(R[0]) + "," + fmt(R[0] + 20) if bydepth and r.random() < .4 else fmt(R[i]) + ("," + fmt(R[i] + 10) if r.random() < .3 else ""))
        k = fam if fam not in ("mixed", "syn") else r.choice(["greenfn", "modsum", "greenfn"]) if fam == "mixed" else r.choice(["syn", "greenfn", "syn"]) if i else "syn"
        if k == "greenfn": c = g(D, Rs, stats=bydepth and r.random() < .2)
        elif k == "modsum": c = ["modsum", "-Cph.nc", D, Rs, "-O" + root, "-N0"] + ([e] if e else [])
        elif k == "kernel": c = ["kernel", "-M" + m, D, r.choice(["-F0/2/1", "-F1/3/1"]), "-C0.3/2/0.3", "-OKER"] + ([e] if e else [])
        else:
            c = ["syn"] + (["-G%s/%s_%s_%s_%s" % (root, m, fmt(z[4]), fmt(z[5]), r.choice("46"))] if r.random() < .5 else ["-G" + root, "-Ds" + fmt(z[4]), "-Dr" + fmt(z[5]), "-R" + r.choice("46")]) + ["-A%d" % r.randint(0, 359), "-S1e20", "-Osyn%d" % i] + (["-M%d/50/60" % r.randint(0, 180)] if r.random() < .6 else []) + (["-N"] if r.random() < .4 else [])
            if r.random() < .3: c.append("-Dt/0.1/0.2/0.4")
        if k in ("greenfn", "modsum", "kernel") and r.random() < .12:
            files["dist%d" % i] = "\n".join(c[[x[:2] for x in c].index("-R")][2:].split(",")) + "\n" if k != "kernel" else ""
            L = "./" * r.randint(900, 1500)
            if k == "greenfn": c[1] = "-M" + L + m; c[[x[:2] for x in c].index("-R")] = "-R" + L + "dist%d" % i
            elif k == "modsum": c[1] = "-C" + L + "ph.nc"; c[[x[:2] for x in c].index("-R")] = "-R" + L + "dist%d" % i
            if k == "kernel": files.pop("dist%d" % i)
        cmds.append(c); kinds.append(k)
    if r.random() < .25 and fam != "kernel":      # the entry name spelled differently by one of them must stay separate
        pass
    return dict(files=files, setup=setup, cmds=cmds, root=root if fam != "kernel" else "KER", model=m, kinds=kinds)

def gen_post(r, files, m, z):
    """post-processing of one synthesis (each adds its own files) beside syntheses into other directories"""
    a, b = fmt(z[0]), fmt(z[5]); out = r.choice(["syn", "out/syn"])
    if "/" in out: files["out/keep"] = "x\n"
    setup = [["greenfn", "-M" + m, "-D%s/%s" % (a, b), "-N8/0.1", "-R4,6", "-OGRN", "-K+k5", "-e"]]
    def s(o, q): return ["syn", "-GGRN", "-R" + q, "-A%d" % r.randint(0, 359), "-S1e20", "-O" + o, "-e"] + (["-M%d/50/60" % r.randint(0, 180)] if r.random() < .6 else []) + (["-N"] if zne else [])
    zne = r.random() < .5; setup.append(s(out, "4")); n = r.choice([2, 3, 3, 4]); kinds = r.sample(["strain", "stress", "rotation"], min(n, r.choice([2, 3, 3]))); cmds = [[k, out] for k in kinds]
    while len(cmds) < n: cmds.append(s("syn%d" % len(cmds), r.choice("46"))); kinds.append("syn")
    o = list(range(n)); r.shuffle(o)
    return dict(files=files, setup=setup, cmds=[cmds[i] for i in o], root=out, model=m, kinds=[kinds[i] for i in o])

def gen_nc(r, files, m, z):
    """NetCDF products of different names in one directory, some of them from one common input"""
    k = r.choice(["static", "static-tensor", "static-tensor", "okada", "eigen"]); d = r.choice(["", "res/"]); n = r.choice([2, 3, 4]); setup = []; cmds = []; kinds = []
    if d: files["res/keep"] = "x\n"
    G = ["-X-2/2/2", "-Y-1/1/1"]
    if k.startswith("static"): setup.append(["static", "greenfn", "-M" + m, "-D%s/%s" % (fmt(max(z[:2])), fmt(z[5])), "-R0/8/2", "-O" + d + "stgrn.nc", "-e"])
    if k == "static-tensor":      # in place: every command adds its values to one file
        setup.append(["static", "syn", "-G" + d + "stgrn.nc", "-S1e20", "-O" + d + "g.nc", "-M%d/50/60" % r.randint(0, 180), "-e"] + G + (["-N"] if r.random() < .3 else []))
        kinds = r.sample(["static-strain", "static-stress", "static-rotation"], r.choice([2, 2, 3])); cmds = [["static", x[7:], d + "g.nc"] for x in kinds]
        if len(cmds) < n and r.random() < .5: kinds.append("static-syn"); cmds.append(["static", "syn", "-G" + d + "stgrn.nc", "-S1e20", "-O" + d + "h.nc"] + G)
        return dict(files=files, setup=setup, cmds=cmds, root=d + "none", model=m, kinds=kinds, shared=d + "g.nc")
    if k == "eigen": setup.append(["eigenv", "-M" + m, "-SR", "-F0/1/0.5", "-C" + d + "ph.nc", "-N1"])
    for i in range(n):
        o = "%sp%d" % (d, i) + r.choice([".nc", "", ".part.nc", ".nc2"])
        if k == "static" and r.random() < .3: kinds.append("static-greenfn"); cmds.append(["static", "greenfn", "-M" + m, "-D%s/%s" % (fmt(z[2]), fmt(z[3]))] + G + ["-O" + o])
        elif k == "static": kinds.append("static-syn"); cmds.append(["static", "syn", "-G" + d + "stgrn.nc", "-S1e20", "-O" + o, "-M%d/50/60" % r.randint(0, 180)] + G + (["-e"] if r.random() < .5 else []) + (["-N"] if r.random() < .3 else []))
        elif k == "okada": kinds.append("okada"); cmds.append(["okada", "-I6/3.464/2.7", "-Ds%s" % fmt(r.choice([1, 2, 3])), "-Dr0", "-Su1e12", "-M%d/50/60" % r.randint(0, 180), "-O" + o] + G)
        elif r.random() < .5: kinds.append("eigenv"); cmds.append(["eigenv", "-M" + m, "-S" + r.choice("RL"), "-F0/1/%s" % r.choice(["0.5", "0.25"]), "-C" + o, "-N1"])
        else: kinds.append("eigenfn"); cmds.append(["eigenfn", "-C%sph.nc" % d, r.choice(["-W%s+z0/2/1", "-U%s", "-K+c%s"]) % o, "-N"])
    return dict(files=files, setup=setup, cmds=cmds, root=d + "none", model=m, kinds=kinds)

class Sched:
    """decides which waiting process performs its pending file operation"""
    def __init__(self, r, pol, n):
        self.r = r; self.pol = pol; self.n = n; self.cur = 0; self.prio = [r.random() for _ in range(n)]; self.left = r.choice([2, 4, 8, 16]); self.p = r.choice([.02, .1, .3, .6])
    def pick(self, w, step):
        r = self.r
        if self.pol == "uniform": return r.choice(w)
        if self.pol == "sticky":
            if self.cur not in w or r.random() < self.p: self.cur = r.choice(w)
            return self.cur
        if self.pol == "pct":
            b = max(w, key=lambda i: self.prio[i])
            if self.left and r.random() < .03: self.left -= 1; self.prio[b] = -self.left - r.random(); b = max(w, key=lambda i: self.prio[i])
            return b
        if self.pol == "lockstep":
            self.cur = next((i for k in range(1, self.n + 1) for i in [(self.cur + k) % self.n] if i in w)); return self.cur
        # chase: one process runs ahead by a few operations, the next follows
        if self.cur not in w or r.random() < .15: self.cur = w[0] if r.random() < .5 else w[-1]
        return self.cur

def launch(exe, argv, cwd, aux, tag, conf):
    rr, rw = os.pipe(); gr, gw = os.pipe()
    c = dict(DEFAULT); c.update(conf); c.update(root=cwd, report=os.path.join(aux, tag + ".rep"), optrace=os.path.join(aux, tag + ".ops"), rvz_req=rw, rvz_grant=gr, maxops=60000)
    cf = os.path.join(aux, tag + ".conf"); write_conf(cf, c); e = dict(ENV); e["GRTSIM_CONF"] = cf
    fo, fe = open(os.path.join(aux, tag + ".out"), "wb"), open(os.path.join(aux, tag + ".err"), "wb")
    p = subprocess.Popen([exe] + argv, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, pass_fds=(rw, gr), preexec_fn=lambda: core._limits(60), start_new_session=True)
    os.close(rw); os.close(gr); fo.close(); fe.close()
    return dict(p=p, rr=rr, gw=gw, tag=tag, live=True, argv=argv, killed=False, steps=0)

def concurrent(prep, kills, sched=None, explicit=None, limit=120000):
    """runs all commands under the scheduler; kills: {process index: after how many of its own operations}. Returns (processes, tree, schedule)"""
    w = prep.dir(); ps = [launch(prep.exe, c, w, prep.aux, "p%d" % i, dict(seed=i + 1, nprocs=1 + i % 2)) for i, c in enumerate(prep.cmds)]; trace = []; t0 = time.time(); hang = False
    def wait(q):
        rl, _, _ = select.select([q["rr"]], [], [], 100)
        b = os.read(q["rr"], 1) if rl else b""; q["blocked"] = b == b"W"
        if b not in (b"R", b"W"):
            if not rl: os.killpg(q["p"].pid, 9); q["hang"] = True
            q["p"].wait(); q["live"] = False; os.close(q["rr"]); os.close(q["gw"])
    for q in ps: wait(q)
    stuck = set()      # waiting for a lock, and nobody has moved since
    ex = list(explicit or []); step = 0
    while any(q["live"] for q in ps):
        wt = [i for i, q in enumerate(ps) if q["live"]]; free = [i for i in wt if i not in stuck]
        if not free: hang = True; [os.killpg(ps[i]["p"].pid, 9) for i in wt]; [ps[i]["p"].wait() for i in wt]; break
        wt = free
        if explicit is not None:
            while ex and (ex[0][1] <= 0 or ex[0][0] not in wt): ex.pop(0)
            if ex: i = ex[0][0]; ex[0] = [i, ex[0][1] - 1]
            else: i = wt[0]
        else: i = sched.pick(wt, step)
        q = ps[i]; kill = i in kills and q["steps"] >= kills[i]
        os.write(q["gw"], b"k" if kill else b"g"); q["killed"] |= kill; q["steps"] += 1; step += 1
        if trace and trace[-1][0] == i: trace[-1][1] += 1
        else: trace.append([i, 1])
        wait(q)
        if q["live"] and q["blocked"]: stuck.add(i)
        else: stuck = set()
        if step > limit: hang = True; [os.killpg(x["p"].pid, 9) for x in ps if x["live"]]; [x["p"].wait() for x in ps]; break
    for q in ps:
        a = os.path.join(prep.aux, q["tag"]); q["rc"] = q["p"].returncode; q["out"] = open(a + ".out", "rb").read(); q["err"] = open(a + ".err", "rb").read(); q["rep"] = parse_report(a + ".rep")
        q["ops"] = open(a + ".ops", "rb").read()
    t = tree(w)
    return ps, t, trace, hang, w

class Prep14:
    def __init__(self, scn, note=None):
        self.scn = scn; self.exe = build.build_path("plain"); self.sc = Scratch("c"); self.n = 0; d = self.sc.path
        w = os.path.join(d, "w0"); self.aux = os.path.join(d, "x"); os.mkdir(w); os.mkdir(self.aux); put(w, scn["files"]); self.cmds = scn["cmds"]; self.note = note; self.ser = {}
        for a in scn["setup"]:
            q = sim(self.exe, a, w, self.aux, conf=dict(maxops=60000, cpu=20), tag="s")
            if note: note(q)
            if q.rc: self.close(); raise Bad("setup %s %s" % (a, q.err[-200:]))
        self.base = tree(w); rmtree(w); self.alone = []
        for i, c in enumerate(self.cmds):
            w = self.dir(); q = sim(self.exe, c, w, self.aux, conf=dict(maxops=20000, cpu=20), tag="a"); t = tree(w); rmtree(w)
            if note: note(q)
            if q.rc: self.close(); raise Bad("alone %s %s" % (c, q.err[-200:]))
            self.alone.append((q, {p: v for p, v in t.items() if p not in self.base or self.base[p] != v}))
    def dir(self):
        self.n += 1; w = os.path.join(self.sc.path, "w%d" % self.n); mat(w, self.base); return w
    def serial(self, order):
        """what the shared file holds after these commands, one after the other"""
        if order not in self.ser:
            w = self.dir()
            for i in order:
                q = sim(self.exe, self.cmds[i], w, self.aux, conf=dict(maxops=20000, cpu=20), tag="a")
                if self.note: self.note(q)
            self.ser[order] = tree(w).get(self.scn["shared"]); rmtree(w)
        return self.ser[order]
    def close(self): rmtree(self.sc.path)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

def judge(prep, ps, t, hang, w, rerun=False):
    out = []; scn = prep.scn; log = scn["root"] + "/command"
    def add(sig, text): out.append(("P14 " + sig, text))
    who = " | ".join(" ".join(c)[:80] for c in prep.cmds)
    if hang or any(q.get("hang") for q in ps): add("hang", "does not end: %s" % who); return out
    exp = {}; und = set(); shared = scn.get("shared")
    for i, q in enumerate(ps):
        a, prod = prep.alone[i]
        if q["killed"]: und |= set(prod); continue
        if q["rc"] != 0: add("fails-beside-others %s" % scn["kinds"][i], "`grt %s` succeeds alone but exits %s beside others: %s" % (" ".join(q["argv"])[:200], q["rc"], q["err"][-200:].decode("utf-8", "replace"))); return out
        for p, v in prod.items():
            if p not in (log, shared): exp[p] = v
        if sorted(logsplit(q["out"])[0]) != sorted(logsplit(a.out)[0]): add("output-differs %s" % scn["kinds"][i], "`grt %s` prints something else beside others" % " ".join(q["argv"])[:200])
    for p in sorted(set(prep.base) | set(exp)):
        if p in (log, shared): continue
        v = exp.get(p, prep.base.get(p))
        if p in und and p not in exp: continue
        if p not in t: add("product-missing %s" % pclass(scn, p), "%s is missing after: %s" % (p, who)); break
        if t[p] != v: add("product-differs %s" % pclass(scn, p), "%s differs from what the command writes alone; commands: %s" % (p, who)); break
    if shared:
        add_ = [i for i in range(len(ps)) if shared in prep.alone[i][1]]; must = [i for i in add_ if not ps[i]["killed"]]; may = [i for i in add_ if ps[i]["killed"]]
        if not any(t.get(shared) == prep.serial(o) for n in range(len(may) + 1) for c in itertools.combinations(may, n) for o in itertools.permutations(must + list(c))): add("shared-product", "%s is not what these commands leave when they run one after the other, in any order: %s" % (shared, who))
    for p in sorted(t):
        if p.endswith(".part") and p[:-5] in und: continue
        if p not in prep.base and p not in exp and p not in und and p != log: add("unexpected-file", "%s appeared" % p); break
    # the command log
    want = [prep.alone[i][1][log][len(prep.base.get(log) or b""):] for i, q in enumerate(ps) if not q["killed"] and log in prep.alone[i][1]]
    maybe = [prep.alone[i][1][log][len(prep.base.get(log) or b""):] for i, q in enumerate(ps) if q["killed"] and log in prep.alone[i][1]]
    if want:
        got = t.get(log); b = prep.base.get(log) or b""
        if not isinstance(got, bytes): add("log-missing", "no command log"); return out
        if not got.startswith(b): add("log-lost-earlier-lines", "the lines recorded before were lost"); return out
        L = collections.Counter(got[len(b):].splitlines(True)); W = collections.Counter(want); M = collections.Counter(maybe)
        if W - L: add("log-line-lost", "the command log lacks the intact line of `%s`; commands: %s" % (sorted(W - L)[0][:120].decode("utf-8", "replace"), who))
        elif (L - W) - M: add("log-line-garbled", "the command log holds %r" % sorted((L - W) - M)[0][:120])
    return out

def rle(tr): return [list(x) for x in tr]

def explore(r, o, tier):
    scn = gen(r)
    try: prep = Prep14(scn, note=o.note)
    except Bad as e: o.skipped += 1; o.st["skipped"] += 1; o.samples.append(dict(skipped=str(e)[:200])); return
    with prep:
        o.st["scenario:" + "+".join(sorted(scn["kinds"]))] += 1
        for i in range(6):
            pol = r.choice(POL); n = len(scn["cmds"]); kills = {}
            if r.random() < .35:
                for j in r.sample(range(n), r.choice([1, 1, max(1, n - 1)])): kills[j] = r.randrange(max(1, prep.alone[j][0].rep["ops"])) if r.random() < .6 else r.randrange(30)
            ps, t, tr, hang, w = concurrent(prep, kills, Sched(random.Random(r.random()), pol, n))
            rmtree(w); o.runs += len(ps); o.st["concurrent_runs"] += 1; o.st["policy:" + pol] += 1; o.st["fault:crash"] += sum(q["killed"] for q in ps); o.st["process_switches"] += len(tr); o.st["io_ops"] += sum(q["steps"] for q in ps)
            if len(tr) > len(ps): o.distinct.add(engine.h(tr, [q["ops"] for q in ps]))
            if i == 0: o.samples.append(dict(commands=[" ".join(c)[:100] for c in scn["cmds"]], policy=pol, turns=len(tr), kills=kills, exits=[q["rc"] for q in ps]))
            for sig, text in judge(prep, ps, t, hang, w): o.violation(sig, text, dict(scn=scn, kills={str(k): v for k, v in kills.items()}, schedule=rle(tr)))

class C14: d = {}
def execute(desc):
    import json
    k = json.dumps(desc["scn"], sort_keys=True)
    if k not in C14.d:
        for p in C14.d.values(): p.close()
        C14.d = {k: Prep14(desc["scn"])}
    p = C14.d[k]; ps, t, tr, hang, w = concurrent(p, {int(k): v for k, v in desc["kills"].items()}, explicit=desc["schedule"]); rmtree(w)
    return judge(p, ps, t, hang, w)
import atexit
@atexit.register
def _cl():
    for p in C14.d.values(): p.close()

def shrink(desc):
    s = desc["schedule"]; sc = desc["scn"]
    if len(sc["cmds"]) > 2:
        for i in range(len(sc["cmds"])):
            q = dict(sc, cmds=sc["cmds"][:i] + sc["cmds"][i + 1:], kinds=sc["kinds"][:i] + sc["kinds"][i + 1:])
            yield dict(desc, scn=q, schedule=[[a - (a > i), b] for a, b in s if a != i], kills={str(int(k) - (int(k) > i)): v for k, v in desc["kills"].items() if int(k) != i})
    for k in desc["kills"]: yield dict(desc, kills={a: b for a, b in desc["kills"].items() if a != k})
    step = max(1, len(s) // 2)
    while step >= 1 and len(s) > 1:
        for i in range(0, len(s), step): yield dict(desc, schedule=merge(s[:i] + s[i + step:]))
        step //= 2
def merge(s):
    out = []
    for a, b in s:
        if out and out[-1][0] == a: out[-1][1] += b
        else: out.append([a, b])
    return out
