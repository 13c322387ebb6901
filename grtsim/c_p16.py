"""P16: the Python API over the simulated program"""
from prep import *
import engine, work, glob, json, subprocess, hashlib, fcntl, shutil, atexit, sys, errno
ID = "P16"; LEVEL = "exploration"; VARIANTS = ["plain"]
CASES = dict(quick=20000, thorough=500000); BUDGET = dict(quick=75, thorough=1200)
RULE = "distinct (API function, kind of fault, place it hit, returned/raised) combinations among calls in which a fault fired, plus distinct (call history, returned data)"
ASSUME = ["The child program is the simulated build of the same sources; it meets the faults of P05-P10 (failing, partial, lost operations, death at an operation).",
          "The Python process itself meets failures to start the child (fork/exec errors, missing or non-executable program) and read failures while collecting results; it does not die.",
          "The reference of a call is the same call after only the calls its inputs come from, in a fresh directory.",
          "Post-processing functions get a synthesis directory whose synthesis files come from one kind of synthesis (same components, derivatives on)."]
REAL = ["pygrt Python package (unmodified), CPython, NumPy, ObsPy, SciPy", "PyGRT C program (unmodified sources, simulated environment)"]
STUB = ["file-system and process faults", "OpenMP scheduler (one worker), clock"]
PY = "/opt/pygrt-venv/bin/python"

# ------------------------------------------------------------------ the package under test
def pkg():
    pys = sorted(glob.glob(build.REPO + "/pygrt/*.py")); hh = hashlib.sha256(build.tree_hash().encode())
    for f in pys: hh.update(f.encode()); hh.update(open(f, "rb").read())
    out = os.path.join(build.CACHE, "py-" + hh.hexdigest()[:20])
    with open(os.path.join(build.CACHE, "py.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out): os.utime(out); return out
        for o in sorted(glob.glob(os.path.join(build.CACHE, "py-*")), key=os.path.getmtime)[:-2]: shutil.rmtree(o, ignore_errors=True)
        tmp = out + ".tmp"; shutil.rmtree(tmp, ignore_errors=True); P = tmp + "/pygrt"; os.makedirs(P + "/C_extension/bin"); os.makedirs(P + "/C_extension/lib")
        for f in pys: shutil.copy(f, P)
        shutil.copy(build.build_path("plain"), P + "/C_extension/bin/grt")
        src, _ = build._files(); objs = []; jobs = []
        for s in src:
            o = os.path.join(tmp, os.path.relpath(s, build.CEXT).replace("/", "_") + ".o"); objs.append(o); jobs.append(["gcc", "-O1", "-std=gnu99", "-fPIC", "-w", "-fopenmp", "-D_GNU_SOURCE", '-DGRT_VERSION="vSIM"', '-DGRT_DATE="x"', "-I" + build.CEXT + "/include", "-c", s, "-o", o])
        with build.ThreadPoolExecutor(8) as ex: list(ex.map(build._run, jobs))
        build._run(["gcc", "-shared", "-fopenmp", "-o", P + "/C_extension/lib/libgrt.so"] + objs + ["-lfftw3", "-lfftw3f", "-lnetcdf", "-lm"])
        for o in objs: os.remove(o)
        os.rename(tmp, out)
    return out
_pkg = None
def prepare():
    global _pkg
    _pkg = pkg()

class Server:
    inst = None
    def __init__(self):
        self.sc = Scratch("y"); self.cfg = os.path.join(self.sc.path, "home"); os.mkdir(self.cfg)
        env = dict(PATH="/usr/bin:/bin", LC_ALL="C.UTF-8", HOME=self.cfg, PYTHONPATH=_pkg, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR=self.cfg, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        self.p = subprocess.Popen([PY, "-s", os.path.join(os.path.dirname(os.path.abspath(__file__)), "pyharness.py")], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(os.path.join(self.sc.path, "err"), "wb"), env=env, cwd=self.sc.path)
    def job(self, j):
        self.p.stdin.write((json.dumps(j) + "\n").encode()); self.p.stdin.flush(); l = self.p.stdout.readline()
        if not l: raise RuntimeError("Python harness ended: " + open(os.path.join(self.sc.path, "err")).read()[-2000:])
        return int(l)
    def close(self):
        try: self.p.stdin.close(); self.p.wait(20)
        except Exception: self.p.kill()
        rmtree(self.sc.path)
    @classmethod
    def get(cls):
        if cls.inst is None or cls.inst[0] != os.getpid(): cls.inst = (os.getpid(), cls()); import multiprocessing.util as mu; mu.Finalize(cls.inst[1], cls.inst[1].close, exitpriority=10); atexit.register(cls.inst[1].close)
        return cls.inst[1]

class World:
    """one scratch directory in which a history of API calls runs"""
    def __init__(self, note=None): self.sc = Scratch("q"); self.n = 0; self.note = note
    def close(self): rmtree(self.sc.path)
    def new(self, files):
        self.n += 1; w = os.path.join(self.sc.path, "w%d" % self.n); os.mkdir(w); put(w, files); os.mkdir(w + ".x"); return w
    def call(self, w, calls, confs=None, py=None, trace_last=False, exe=None):
        aux = w + ".x"; J = []
        for i, c in enumerate(calls):
            cf = os.path.join(aux, "c%d.conf" % i); conf = dict(DEFAULT, maxops=60000, nprocs=1, root=w, report=os.path.join(aux, "c%d.rep" % i)); conf.update((confs or {}).get(i, {}))
            try: os.remove(conf["report"])
            except OSError: pass
            if trace_last and i == len(calls) - 1: conf["optrace"] = os.path.join(aux, "last.ops")
            write_conf(cf, conf); J.append(dict(c, conf=cf, py=(py or {}).get(i)))
        out = os.path.join(aux, "out.json")
        try: os.remove(out)
        except OSError: pass
        st = Server.get().job(dict(cwd=w, out=out, calls=J))
        for i in range(len(calls)):
            if self.note:
                q = Run(); q.rep = parse_report(os.path.join(aux, "c%d.rep" % i))
                if q.rep: self.note(q)
        if st or not os.path.exists(out): raise RuntimeError("harness job failed (%s): %s" % (st, open(out + ".log", errors="replace").read()[-800:]))
        self.log = open(out + ".log", "rb").read()
        return json.load(open(out))
    def ops(self, w):
        L = []
        for l in open(w + ".x/last.ops", errors="replace").read().splitlines():
            a = l.split(" ", 3)
            if len(a) == 4 and not a[1].startswith("lib_"): L.append((int(a[0]), a[1], int(a[2]), a[3]))
        return L
    def rep(self, w, i): return parse_report(w + ".x/c%d.rep" % i)

# ------------------------------------------------------------------ scenarios
def src_kw(r, okada=False):
    k = r.random(); d = dict(scale=r.choice([1e20, 1e24]))
    if r.random() < .3: d.update(scale=1e12, scale_with_mu=True)
    if k < .25: return d
    if k < .5: d.update(strike=r.randint(0, 359), dip=r.randint(1, 90), rake=r.randint(-179, 180))
    elif k < .7 or okada: d.update(strike=r.randint(0, 359), dip=r.randint(1, 90))
    elif k < .85: d.update(moment_tensor=[round(r.uniform(-2, 2), 2) for _ in range(6)])
    else: d.update(force=[round(r.uniform(-2, 2), 2) for _ in range(3)]); d.pop("scale_with_mu", None)
    return d
def val(r, v): return v[0] if len(v) == 1 and r.random() < .6 else v

def grn_call(r, m, upar=None):
    ds = sorted(r.sample([.35, .9, 1.3, 2.0], r.choice([1, 1, 2]))); dr = sorted(r.sample([0.0, .1, .5], r.choice([1, 1, 1, 2]))); R = sorted(r.sample([1.0, 3.5, 5.0, 8.0, 12.0], r.choice([1, 1, 2])))
    kw = dict(depsrc=val(r, ds), deprcv=val(r, dr), dists=val(r, R), nt=r.choice([6, 8, 11]), dt=r.choice([.05, .1, .3]), k0=r.choice([3.0, 5.0]))
    if upar or (upar is None and r.random() < .4): kw["calc_upar"] = True
    for p, k, v in ((.3, "print_log", False), (.15, "converg_method", r.choice(["DCM", "PTAM", "NONE"])), (.15, "keepAllFreq", True), (.15, "upsampling_n", 2), (.1, "ref_first_p", True), (.1, "delayT0", .5), (.15, "zeta", .6), (.1, "Length", 15.0)):
        if r.random() < p: kw[k] = v
    if r.random() < .2 and len(ds) == len(dr) == 1: kw["statsidxs"] = r.choice([[], [0, 2]])
    return dict(fn="PyModel1D.compute_grn", init=dict(grn="GRN", modelpath=m), kw=kw), ds, dr, R
def syn_call(r, ds, dr, R, upar, full=True, zne=None, out="syn"):
    kw = dict(azimuth=r.randint(0, 359), output_path=out, **src_kw(r))
    if full or len(ds) > 1 or r.random() < .4: kw["depsrc"] = r.choice(ds)
    if full or len(dr) > 1 or r.random() < .4: kw["deprcv"] = r.choice(dr)
    if full or len(R) > 1 or r.random() < .4: kw["dist"] = r.choice(R)
    if r.random() < .35: kw["time_function"] = r.choice(["p/0.4", "t/0.1/0.2/0.4", "r/2"])
    if r.random() < .15: kw["integrate_order"] = 1
    if r.random() < .15: kw["differentiate_order"] = 1
    if r.random() < .4 if zne is None else zne: kw["zne"] = True
    if upar: kw["calc_upar"] = True
    if r.random() < .75: kw["return_result"] = True
    return dict(fn="PyModel1D.compute_syn", init=dict(grn="GRN"), kw=kw)
def grid_kw(r): return dict(norths=r.choice([[-2, 2, 1], [-1, 2, 1.5], [.5, 2, .5]]), easts=r.choice([[-1, 1, 1], [0, 3, 1.5]]))
def post(r, path): return dict(fn="compute_" + r.choice(["strain", "rotation", "stress"]), args=[path], kw=dict(return_result=r.random() < .8))
def static_grn_call(r, m, upar=None, multi=None):
    kw = dict(k0=r.choice([3.0, 5.0]))
    if multi: kw.update(depsrc=[1.0, 2.0, 3.0], deprcv=0.0)
    else: kw.update(depsrc=2.0, deprcv=0.0)
    if multi or r.random() < .7: kw["dists"] = r.choice([[.5, 2, 4, 6], [0, 3, 6]])
    else: kw.update(grid_kw(r))
    if upar or (upar is None and r.random() < .4): kw["calc_upar"] = True
    if r.random() < .2 and not multi: kw["stats"] = True
    if r.random() < .15: kw["converg_method"] = r.choice(["DCM", "PTAM"])
    return dict(fn="PyModel1D.compute_static_grn", init=dict(stgrn="lib/st.nc", modelpath=m), kw=kw)
def static_syn_call(r, files, g, upar, ff=False, zne=None, out="o/stsyn.nc"):
    kw = dict(output_path=out); gk = g["kw"]
    if ff:
        files["cf.inp"] = work.fault_file(random.Random(r.randrange(1 << 30))); kw["finite_fault"] = "cf.inp"; kw["subfault_size"] = r.choice([[1, 1], [.7, .5]])
    else:
        kw.update(src_kw(r))
        if isinstance(gk["depsrc"], list): kw["depsrc"] = r.choice([1.0, 1.5, 2.25])
    if "dists" in gk:
        if r.random() < .4: files["pts"] = work.rcv_file(random.Random(r.randrange(1 << 30))); kw["recv_points"] = "pts"
        else: kw.update(grid_kw(r))
    if r.random() < .4 if zne is None else zne: kw["zne"] = True
    if upar: kw["calc_upar"] = True
    if r.random() < .8: kw["return_result"] = True
    return dict(fn="PyModel1D.compute_static_syn", init=dict(stgrn="lib/st.nc"), kw=kw)
def okada_call(r, files, upar=None, out="o/ok.nc"):
    kw = dict(modelparams=[6, 3.464, 2.7], output_path=out)
    if r.random() < .4: files["ok.inp"] = work.fault_file(random.Random(r.randrange(1 << 30)), top=.5, bot=6); kw["finite_fault"] = "ok.inp"
    else: kw.update(src_kw(r, True)); kw["depsrc"] = r.choice([2, 5, 10.5])
    if r.random() < .4: files["pts"] = work.rcv_file(random.Random(r.randrange(1 << 30))); kw["recv_points"] = "pts"
    else: kw.update(grid_kw(r)); kw["deprcv"] = r.choice([0, .5])
    if r.random() < .4: kw["zne"] = True
    if upar or (upar is None and r.random() < .5): kw["calc_upar"] = True
    if r.random() < .8: kw["return_result"] = True
    return dict(fn="compute_okada", kw=kw)

def gen(r):
    """files, chain (calls the last one depends on, then the call itself), noise {position: calls made before it that must not matter}, outputs"""
    files = {}; m = work.pick_model(r, files, water=False)
    if m == "thin1": m = "milrow"; files[m] = work.MODELS[m]
    k = r.random(); noise = {}
    if k < .2:
        c, *_ = grn_call(r, m); chain = [c]; outs = ["GRN"]
        if r.random() < .5: noise[0] = [grn_call(r, m)[0]]
        if r.random() < .3: noise.setdefault(0, []).append(json.loads(json.dumps(dict(c, kw=dict(c["kw"], dt=.2)))))
    elif k < .5:
        up = r.random() < .4; g, ds, dr, R = grn_call(r, m, up or None); up2 = bool(g["kw"].get("calc_upar")) and r.random() < .7; pre = r.random() < .3
        if pre: noise[0] = [grn_call(r, m, g["kw"].get("calc_upar"))[0]]; noise[0][0]["kw"]["nt"] = g["kw"]["nt"]
        chain = [g, syn_call(r, ds, dr, R, up2, full=pre)]; outs = ["syn"]
        if r.random() < .6: noise[1] = [syn_call(r, ds, dr, R, bool(g["kw"].get("calc_upar")) and r.random() < .7, full=True) for _ in range(r.choice([1, 2]))]
        if r.random() < .4 and any(c["kw"].get("calc_upar") for c in noise.get(1, [])): noise[1].append(post(r, "syn"))
    elif k < .62:
        g, ds, dr, R = grn_call(r, m, True); z = r.random() < .5; s = syn_call(r, ds, dr, R, True, zne=z); chain = [g, s, post(r, "syn")]; outs = ["syn"]
        if r.random() < .6: noise[1] = [syn_call(r, ds, dr, R, True, zne=z)] + ([dict(post(r, "syn"), fn=chain[2]["fn"])] if r.random() < .6 else [])
        if r.random() < .3: noise[2] = [post(r, "syn")]
    elif k < .7: chain = [static_grn_call(r, m)]; outs = ["lib"]; noise = {0: [static_grn_call(r, m)]} if r.random() < .5 else {}
    elif k < .85:
        ff = r.random() < .35; g = static_grn_call(r, m, multi=ff or r.random() < .3); up = bool(g["kw"].get("calc_upar")); s = static_syn_call(r, files, g, up and r.random() < .7, ff); chain = [g, s]; outs = ["o"]
        if r.random() < .5: noise[1] = [static_syn_call(r, files, g, up, isinstance(g["kw"]["depsrc"], list) and r.random() < .5)]
        if s["kw"].get("calc_upar") and r.random() < .5: chain.append(post(r, "o/stsyn.nc"))
    else:
        c = okada_call(r, files); chain = [c]; outs = ["o"]
        if r.random() < .5: noise[0] = [okada_call(r, files)]
        if c["kw"].get("calc_upar") and r.random() < .5: chain.append(post(r, "o/ok.nc"))
    s = dict(files=files, chain=chain, noise={str(k): v for k, v in noise.items()}, outs=outs)
    if r.random() < .2 and outs[0] in ("syn", "o"):
        # an output path that a pattern match could take for another one; the other one exists
        j = json.dumps(s); j2 = j.replace('"syn"', '"syn[1]"').replace('"o"', '"o[1]"').replace('"o/', '"o[1]/'); s = json.loads(j2); other = json.loads(j.replace('"syn"', '"syn1"').replace('"o"', '"o1"').replace('"o/', '"o1/'))
        n = len(chain) - 1; s["noise"].setdefault(str(n), [])
        s["noise"][str(n)] += [c for i, c in enumerate(other["chain"]) if i >= 1 or c["fn"] == "compute_okada"]
    return s

def flat(s):
    L = []
    for i, c in enumerate(s["chain"]): L += s["noise"].get(str(i), []) + [c]
    return L
prod = lambda p: p.endswith((".sac", ".nc"))

class Ref:
    """undisturbed histories with and without the calls that must not matter"""
    def __init__(self, s, note=None):
        self.s = s; self.W = World(note); W = self.W
        w = W.new(s["files"]); self.r1 = W.call(w, s["chain"]); bad = [i for i, x in enumerate(self.r1) if not x["ok"]]
        if bad: self.W.close(); raise Bad("%s raises: %s" % (s["chain"][bad[0]]["fn"], self.r1[bad[0]]["exc"]))
        full = tree(w)
        # what the last call writes: start from the state before it
        w0 = W.new(s["files"]); W.call(w0, s["chain"][:-1]) if len(s["chain"]) > 1 else None; t0 = tree(w0)
        self.ret = self.r1[-1]["ret"]; self.prod = {p: v for p, v in full.items() if isinstance(v, bytes) and prod(p) and under(p, s["outs"]) and t0.get(p) != v}
        L = flat(s); self.w = W.new(s["files"]); self.pre = L[:-1]; self.noise_bad = None
        if self.pre:
            q = W.call(self.w, self.pre)
            b = [i for i, x in enumerate(q) if not x["ok"]]
            if b: self.W.close(); raise Bad("noise %s raises: %s" % (self.pre[b[0]]["fn"], q[b[0]]["exc"]))
        self.state = tree(self.w); self.last = L[-1]
    def fresh(self): w = self.W.new({}); mat(w, self.state); return w
    def close(self): self.W.close()

def judge_ok(ref, x, w, what, out):
    fn = ref.last["fn"].split(".")[-1]; add = lambda k, t: out.append(("P16 %s %s" % (fn, k), t))
    if x["ret"] != ref.ret: add("wrong-result", "%s returns other data than the undisturbed call alone (%s)" % (fn, what))
    t = tree(w)
    for p, v in sorted(ref.prod.items()):
        if t.get(p) != v: add("wrong-product", "%s returns normally although %s is %s (%s)" % (fn, p, "missing" if p not in t else "different", what)); break

def judge(ref, f):
    """one disturbed call. f: dict(conf=…, py=…, exe=…, repeat=bool) or {} for the undisturbed one"""
    out = []; w = ref.fresh(); fn = ref.last["fn"].split(".")[-1]; what = json.dumps(f, sort_keys=True) if f else "no fault"
    q = ref.W.call(w, [ref.last], confs={0: f["conf"]} if f.get("conf") else None, py={0: f["py"]} if f.get("py") else None, trace_last=not f)
    x = q[0]; rep = ref.W.rep(w, 0); fired = x["fired"] > 0 or bool(rep and (sum(rep["faults_fired"]) or rep["alloc_faults_fired"]))
    place = ""
    if rep and rep["fault_info"]: place = fault_class(dict(files=ref.s["files"]), type("Q", (), dict(rep=rep)))
    if not f and not x["ok"]: out.append(("P16 %s raises-undisturbed" % fn, "%s raises after earlier successful calls: %s" % (fn, x["exc"])))
    if x["ok"]: judge_ok(ref, x, w, what, out)
    if not f: ref.ops = ref.W.ops(w); ref.nalloc = rep["allocs"] if rep else 0
    if f.get("repeat") and not x["ok"] and not out:
        w2 = w; y = ref.W.call(w2, [ref.last])[0]
        if not y["ok"]:
            if not ("compute_" in fn and fn in ("compute_strain", "compute_stress", "compute_rotation")): out.append(("P16 %s repeat-raises" % fn, "%s fails when repeated after a failed call: %s (%s)" % (fn, y["exc"], what)))
        else: judge_ok(ref, y, w2, "repeated after " + what, out)
    return out, x, fired, place

def pick(r, ref):
    k = r.random(); ops = ref.ops
    if k < .15: return dict(py=dict(kind="fork", errno=r.choice([errno.EAGAIN, errno.ENOMEM, errno.ENOENT, errno.EACCES, errno.ENOEXEC])))
    if k < .3: return dict(py=dict(kind="open", index=r.randint(0, 6), errno=r.choice([errno.EIO, errno.EACCES, errno.EMFILE]), all=r.random() < .3))
    if k < .5 and ops: return dict(conf=dict(faults=[[r.choice(ops)[0], F_CRASH, 0, 0]]))
    if k < .65 and ops:
        ws = [o for o in ops if o[1] == "write" ]
        if ws: return dict(conf=dict(faults=[[r.choice(ws)[0], F_TORN, r.randint(0, 999), 0]]))
    if k < .75 and ref.nalloc: return dict(conf=dict(alloc_fail=r.randrange(ref.nalloc), alloc_mode=r.choice([0, 1])))
    fs = pick_faults(r, ops, dict(files=ref.s["files"]), lambda op, p: True)
    return dict(conf=dict(faults=fs)) if fs else None

def explore(r, o, tier):
    s = gen(r)
    try: ref = Ref(s, o.note)
    except Bad as e: o.skipped += 1; o.st["skipped:" + str(e)[:60]] += 1; return
    try:
        out, x, fired, place = judge(ref, {}); o.st["call:" + s["chain"][-1]["fn"].split(".")[-1]] += 1; o.st["history_calls"] += len(ref.pre)
        o.distinct.add(engine.h([c["fn"] for c in flat(s)], ref.ret if ref.ret else sorted(ref.prod)))
        for sig, text in out: o.violation(sig, text, dict(scn=s, fault={}))
        o.samples.append(dict(calls=[c["fn"] for c in flat(s)], last=ref.last["kw"]))
        if out: return
        for i in range(6):
            f = pick(r, ref)
            if not f: continue
            f["repeat"] = r.random() < .4
            out, x, fired, place = judge(ref, f); kind = f["py"]["kind"] if f.get("py") else "alloc" if "alloc_fail" in f["conf"] else place
            if f.get("py") and x["fired"]: o.st["fault:python-" + kind] += x["fired"]
            o.st["outcome:" + ("returned" if x["ok"] else "raised")] += 1
            if fired: o.distinct.add(engine.h(ref.last["fn"], kind, x["ok"], ref.last["kw"].get("return_result")))
            for sig, text in out: o.violation(sig, text, dict(scn=s, fault=f))
    finally: ref.close()

_c = {}
def execute(desc):
    if _pkg is None: prepare()
    k = json.dumps(desc["scn"], sort_keys=True)
    if k not in _c:
        for v in _c.values(): v.close()
        _c.clear(); _c[k] = Ref(desc["scn"])
    return judge(_c[k], desc["fault"])[0]
@atexit.register
def _cl():
    for v in _c.values(): v.close()

def shrink(desc):
    s = desc["scn"]
    for k in s["noise"]:
        n = dict(s["noise"]); v = n.pop(k); yield dict(desc, scn=dict(s, noise=n))
        for i in range(len(v)): yield dict(desc, scn=dict(s, noise=dict(s["noise"], **{k: v[:i] + v[i + 1:]})))
    for ci, c in enumerate(s["chain"]):
        for a in list(c["kw"]):
            if a in ("time_function", "integrate_order", "differentiate_order", "statsidxs", "converg_method", "keepAllFreq", "upsampling_n", "print_log", "Length", "zeta", "delayT0", "ref_first_p", "stats"):
                ch = list(s["chain"]); kw = dict(c["kw"]); kw.pop(a); ch[ci] = dict(c, kw=kw); yield dict(desc, scn=dict(s, chain=ch))
    if desc["fault"].get("repeat"): yield dict(desc, fault=dict(desc["fault"], repeat=False))
