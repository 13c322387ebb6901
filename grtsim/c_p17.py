"""P17: an item of a list is computed as if it had been asked for alone"""
from prep import *
import prep as prepmod, engine, work, random, re
ID = "P17"; LEVEL = "exploration"; VARIANTS = ["plain", "tsan"]
CASES = dict(quick=20000, thorough=1000000); BUDGET = dict(quick=70, thorough=1200)
RULE = "distinct (command, list order, workers, schedule hash, memory contents) batch runs that were compared item by item with commands for the single items"
ASSUME = ["The reference of an item is the same program (same build, one worker, fresh process and directory) asked for that item alone.",
          "Items share what the documentation says they share: distances of `greenfn`/`static greenfn` share the largest distance, frequencies of `kernel` share the last frequency (attenuation refers to it), so those lists are not taken apart (for `kernel`: only into lists with the same end).",
          "The sensitivities of the group velocity (`eigenfn -K+u`) are forward differences over the next frequency of the list by design, so they are not taken apart.",
          "The padding behind the end of a text field in a SAC header is not compared."]
REAL = ["all of PyGRT's C sources (every module, unmodified, compiled from /repo)", "NetCDF and FFTW libraries"]
STUB = ["OpenMP runtime and scheduler (seeded schedules)", "contents of fresh memory", "clock"]
fmt = work.fmt

# ------------------------------------------------------------------ generators: dict(files, setup, cmd, kind, singles=[(argv, selection)])
def drop(cmd, *p): return [a for a in cmd if not a.startswith(p)]
def zs(r, m):
    z = work.depths(r, m); return z + [w for k, w in (("sea", 0.5), ("ice", 1.0)) if m.startswith(k) and w not in z]
def pairs(r, z):
    a = r.sample(z, r.choice([1, 2, 2, 3])); b = r.sample(z, r.choice([1, 2, 2])); return (a, b) if len(a) * len(b) > 1 else (r.sample(z, 2), b)
def order(r, v):
    """lists of depths and distances must be ascending"""
    return sorted(v)
def g_greenfn(r):
    s = work.greenfn(r, stats=False, long=0); a, b = pairs(r, zs(r, s.model)); a, b = order(r, a), order(r, b)
    base = drop(s.cmd, "-D")
    return dict(files=s.files, setup=[], kind="tree", mod="greenfn", cmd=base + ["-Ds" + ",".join(map(fmt, a)), "-Dr" + ",".join(map(fmt, b))],
                singles=[(base + ["-D%s/%s" % (fmt(x), fmt(y))], None) for x in a for y in b])
def g_modsum(r):
    s = work.modsum(r); z = zs(r, s.model); a, b = pairs(r, z); a, b = order(r, a), order(r, b); R = order(r, work.dists(r, s.model, r.choice([1, 2, 3])))
    base = drop(s.cmd, "-D", "-R")
    return dict(files=s.files, setup=s.setup, kind="tree", mod="modsum", cmd=base + ["-Ds" + ",".join(map(fmt, a)), "-Dr" + ",".join(map(fmt, b)), "-R" + ",".join(map(fmt, R))],
                singles=[(base + ["-D%s/%s" % (fmt(x), fmt(y)), "-R" + fmt(q)], None) for x in a for y in b for q in R])
def g_static(r):
    files = {}; m = work.pick_model(r, files, water=False); a, b = pairs(r, work.depths(r, m)); a, b = order(r, a), order(r, b); c = work.st_argv(r, m, files); base = drop(c, "-D")
    if r.random() < .3: base.append(work.copt(r))
    if r.random() < .2: base.append(work.bopt(r))
    return dict(files=files, setup=[], kind="nc", mod="static greenfn", out="stgrn.nc", cmd=base + ["-Ds" + ",".join(map(fmt, a)), "-Dr" + ",".join(map(fmt, b))],
                singles=[(base + ["-D%s/%s" % (fmt(x), fmt(y))], dict(depsrc=([i], [0]), deprcv=([j], [0]))) for i, x in enumerate(a) for j, y in enumerate(b)])
def g_travt(r):
    s = work.travt(r); R = order(r, work.dists(r, s.model, r.randint(2, 5))); base = drop(s.cmd, "-R")
    return dict(files=s.files, setup=[], kind="lines", mod="travt", cmd=base + ["-R" + ",".join(map(fmt, R))], singles=[(base + ["-R" + fmt(x)], None) for x in R])
def g_kernel(r):
    s = work.kernel(r); n = r.randint(3, 7); base = drop(s.cmd, "-F"); thin = s.model == "thin1"; df = r.choice([4, 2.5] if thin else [.5, 1, .25]); f1 = df * r.randint(1, 3); w = r.choice(["", "", "+w10"])
    return dict(files=s.files, setup=[], kind="kernel", mod="kernel", n=n, cmd=base + ["-F%s/%s/%s%s" % (fmt(f1), fmt(f1 + df * (n - 1)), fmt(df), w)],
                singles=[(base + ["-F%s/%s/%s%s" % (fmt(f1 + df * k), fmt(f1 + df * (n - 1)), fmt(df), w)], k) for k in range(1, n - 1)])
def g_eigenv(r):
    s = work.eigenv(r); base = drop(s.cmd, "-F"); thin = s.model == "thin1"; df = r.choice([2, 4] if thin else [.25, .5]); f1 = df * r.randint(1, 2); n = r.randint(2, 4); per = r.random() < .15 and not thin; p = "+p" if per else ""
    v = [f1 + df * i for i in range(n)]
    return dict(files=s.files, setup=[], kind="nc", mod="eigenv", out="ph.nc", cmd=base + ["-F%s/%s/%s%s" % (fmt(v[0]), fmt(v[-1]), fmt(df), p)],
                singles=[(base + ["-F%s%s" % (fmt(x), p)], dict(freq=([("v", i, x)], [0]))) for i, x in enumerate(v)])
def g_eigenfn(r):
    s = work.eigenfn(r)
    if s.outs == ["us.nc"]: return None
    thin = s.model == "thin1"; df = r.choice([2, 4] if thin else [.25, .5]); n = r.randint(1, 3); f1 = df * r.randint(1, 2); v = [f1 + df * i for i in range(n)]
    e = drop(s.setup[0], "-F", "-N") + ["-F%s/%s/%s" % (fmt(v[0]), fmt(v[-1]), fmt(df)) if n > 1 else "-F" + fmt(v[0]), r.choice(["-N", "-N2", "-N1"])]; base = drop(s.cmd, "-F", "-N")
    k = r.choice([0, 0, 1]); S = []
    for i, x in enumerate(v):
        S.append((base + ["-N", "-F" + fmt(x)], dict(freq=([("v", i, x)], [0]))))
        S.append((base + ["-N%d" % k, "-F" + fmt(x)], dict(freq=([("v", i, x)], [0]), mode=([("m", k)], [0]))))
    return dict(files=s.files, setup=[e], kind="nc", mod="eigenfn", out=[x for x in s.outs if x != "us.nc"], cmd=base + ["-N"], singles=r.sample(S, min(3, len(S))))
def pts(r, depth):
    n = r.randint(2, 5); L = [(round(r.uniform(-2, 2), 2), round(r.uniform(-2, 2), 2), depth() ) for _ in range(n)]
    if r.random() < .3: L.append(L[0])
    return ["%s %s %s" % tuple(map(fmt, p)) for p in L]
def recv(r, s):
    """receivers taken apart: points of a file, or parts of a grid"""
    c = s.cmd; q = next((a for a in c if a.startswith("-Q")), None)
    if q:
        L = [l for l in s.files["pts"].splitlines() if l.strip() and l[0] != "#"]; files = dict(s.files)
        if len(L) < 2: return None
        S = []
        for i, l in enumerate(L): files["pt%d" % i] = l + "\n"; S.append(([("-Qpt%d" % i) if a.startswith("-Q") else a for a in c], dict(point=([i], [0]))))
        return dict(files=files, singles=S)
    if not any(a.startswith("-X") for a in c): return None
    x, y = ([float(w) for w in next(a for a in c if a.startswith(o))[2:].split("/")] for o in ("-X", "-Y"))
    nx, ny = (int((b - a) / d + 1e-6) + 1 for a, b, d in (x, y)); S = []
    for _ in range(2):
        i0 = r.randrange(nx - 1) if nx > 1 else 0; i1 = r.randrange(i0, nx); j0 = r.randrange(ny - 1) if ny > 1 else 0; j1 = r.randrange(j0, ny)
        if i0 == i1: i1 = min(nx - 1, i0 + 1); i0 = max(0, i1 - 1)
        if j0 == j1: j1 = min(ny - 1, j0 + 1); j0 = max(0, j1 - 1)
        S.append(([("-X%s/%s/%s" % (fmt(x[0] + i0 * x[2]), fmt(x[0] + i1 * x[2]), fmt(x[2]))) if a.startswith("-X") else ("-Y%s/%s/%s" % (fmt(y[0] + j0 * y[2]), fmt(y[0] + j1 * y[2]), fmt(y[2]))) if a.startswith("-Y") else a for a in c],
                  dict(north=(list(range(i0, i1 + 1)), list(range(i1 - i0 + 1))), east=(list(range(j0, j1 + 1)), list(range(j1 - j0 + 1))))))
    return dict(files=s.files, singles=S)
def g_recv(gen, tol):
    def f(r):
        for _ in range(20):
            s = gen(r)
            if s.module == "static_syn" and not any(a.startswith("-R") for a in s.setup[0]): continue      # the grid of the Green functions is the grid of the synthesis
            x = recv(r, s)
            if x: return dict(setup=s.setup, cmd=s.cmd, kind="nc", mod=s.module, out=s.outs[0], tol=tol, **x)
    return f
def g_kinds(): return dict(greenfn=g_greenfn, modsum=g_modsum, static_greenfn=g_static, travt=g_travt, kernel=g_kernel, eigenv=g_eigenv, eigenfn=g_eigenfn, okada=g_recv(work.okada, 0.), static_syn=g_recv(work.static_syn, 0.), static_ff=g_recv(work.static_ff, 1e-9))
GENS = ["greenfn", "greenfn", "modsum", "modsum", "static_greenfn", "static_greenfn", "travt", "kernel", "kernel", "eigenv", "eigenfn", "eigenfn", "okada", "static_syn", "static_ff"]

# ------------------------------------------------------------------ oracles
def sacnorm(b):
    """a SAC file with the padding behind the end of its text fields removed"""
    if len(b) < 632: return b
    L = [b[:440]]; o = 440
    for n in [8, 16] + [8] * 21: L.append(b[o:o + n].split(b"\0")[0].rstrip().ljust(n)); o += n
    return b"".join(L) + b[632:]
def cmp_tree(d, bt, st, sel):
    n = 0
    for p, v in sorted(st.items()):
        if not isinstance(v, bytes) or p in d["files"] or os.path.basename(p) in ("command",) or p.endswith(".nc") or p.count("/") < 1: continue
        n += 1
        if not isinstance(bt.get(p), bytes): return "%s is missing in the result of the list" % p
        a, b = (sacnorm(v), sacnorm(bt[p])) if p.endswith(".sac") else (v, bt[p])
        if a != b: return "%s differs (%d and %d bytes)" % (p, len(v), len(bt[p]))
    return None if n else "nothing was written"
def cmp_kernel(d, bt, st, k):
    n = 0
    for p, v in sorted(st.items()):
        m = re.match(r"^(.*/C_)(\d+)(_.*)$", p)
        if not m or not isinstance(v, bytes): continue
        q = "%s%04d%s" % (m.group(1), int(m.group(2)) + k, m.group(3)); n += 1
        if not isinstance(bt.get(q), bytes): return "%s is missing in the result of the list" % q
        if bt[q] != v: return "%s differs from %s" % (q, p)
    return None if n else "nothing was written"
def num(l):
    w = l.split()
    try: return [float(x) for x in w] and w
    except ValueError: return None
def cmp_lines(d, bo, so, sel):
    B = [num(l) for l in bo.decode("utf-8", "replace").splitlines()]; B = [x for x in B if x]
    for l in so.decode("utf-8", "replace").splitlines():
        w = num(l)
        if w and w not in B: return "the line %r does not appear in the table of the list" % l.strip()
    return None
def strides(dims, size):
    s = 1; L = []
    for x in reversed(dims): L.append(s); s *= size[x]
    return L[::-1]
def cmp_nc(d, name, bt, st, sel):
    import itertools
    try: A = nc_parse(bt[name]); B = nc_parse(st[name])
    except (NCError, KeyError, TypeError): return "%s is missing or unreadable" % name
    da, db = dict(A[0]), dict(B[0]); size = {}; ia = {}; ib = {}
    fa, fb = A[2].get("freq"), B[2].get("freq")
    for k in da:
        if k not in db: return "%s: no dimension %s" % (name, k)
        s = sel.get(k)
        if s is None or (isinstance(s[0][0], tuple) and s[0][0][0] == "m" and s[0][0][1] >= da[k]):
            if s is not None: return None                 # that mode does not exist
            n = min(da[k], db[k]) if k == "mode" else da[k]
            if k != "mode" and da[k] != db[k]: return "%s: %s has %d and %d points" % (name, k, da[k], db[k])
            ia[k] = ib[k] = list(range(n)); continue
        x = s[0][0]
        if isinstance(x, tuple) and x[0] == "v":
            va, vb = nc_vals(fa), nc_vals(fb)
            if len(vb) != 1 or x[1] >= len(va) or abs(vb[0] - va[x[1]]) > 1e-12 * abs(vb[0]): return None     # another frequency: not comparable
            if vb[0] != va[x[1]]: return None
            ia[k], ib[k] = [x[1]], [0]
        elif isinstance(x, tuple): ia[k], ib[k] = [x[1]], [0]
        else: ia[k], ib[k] = s
        if max(ia[k]) >= da[k] or db[k] != len(ib[k]): return "%s: %s has %d points in the list and %d alone" % (name, k, da[k], db[k])
    cn = None
    if "cnum" in A[2] and "freq" in ia:
        ca, cb = nc_vals(A[2]["cnum"])[ia["freq"][0]] if sel.get("freq") else None, nc_vals(B[2]["cnum"])[0]
        if ca is not None and "mode" not in sel:
            if ca != cb: return "%s: %d modes in the list and %d alone" % (name, ca, cb)
            cn = ca
        elif ca is not None: cn = ia["mode"][0] + 1 if ia["mode"][0] < ca else 0
    for v in B[2]:
        if v not in A[2]: return "%s: no variable %s" % (name, v)
        if v in ("model", "cnum") or (v == "mode" and "mode" not in sel): continue
        x, y = A[2][v], B[2][v]
        if x[0] != y[0] or x[2] != y[2]: return "%s: variable %s has another layout" % (name, v)
        if x[2] == 2: continue
        X, Y = nc_vals(x), nc_vals(y); sa, sb = strides(x[0], da), strides(y[0], db); sc = max((abs(q) for q in Y if q == q and abs(q) < 1e300), default=0.)
        for pa, pb in zip(itertools.product(*[ia[k] for k in x[0]]), itertools.product(*[ib[k] for k in x[0]])):
            if cn is not None and "mode" in x[0] and pa[x[0].index("mode")] >= cn: continue
            p, q = X[sum(i * s for i, s in zip(pa, sa))], Y[sum(i * s for i, s in zip(pb, sb))]
            if p == q or (p != p and q != q): continue
            if d.get("tol") and abs(p - q) <= d["tol"] * sc: continue
            return "%s: %s%s is %r in the list and %r alone" % (name, v, list(zip(x[0], pa)), p, q)
    return None

class Case:
    def __init__(self, d, note=None):
        self.d = d; self.sc = Scratch("b"); self.aux = os.path.join(self.sc.path, "x"); os.mkdir(self.aux); self.n = 0; self.note = note; self.exe = build.build_path("plain")
        w = os.path.join(self.sc.path, "s"); os.mkdir(w); put(w, d["files"])
        for a in d["setup"]:
            q = self.sim(a, w, dict(nprocs=1))
            if q.rc: self.close(); raise Bad(a)
        self.base = tree(w); self.single = {}
    def sim(self, a, w, conf, exe=None):
        q = sim(exe or self.exe, a, w, self.aux, conf=dict(dict(maxops=80000, cpu=60), **conf), tag="b")
        if self.note: self.note(q)
        return q
    def run(self, a, conf, exe=None):
        self.n += 1; w = os.path.join(self.sc.path, "w%d" % self.n); mat(w, self.base); q = self.sim(a, w, conf, exe); t = tree(w); rmtree(w); return q, t
    def alone(self, i, variant):
        if (i, variant) not in self.single: self.single[i, variant] = self.run(self.d["singles"][i][0], dict(nprocs=1), build.build_path(variant))
        return self.single[i, variant]
    def close(self): rmtree(self.sc.path)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

def judge(c, conf, variant):
    d = c.d; q, t = c.run(d["cmd"], conf, build.build_path(variant)); out = []; n = 0
    def add(k, text): out.append(("P17 %s %s" % (d["mod"], k), "`grt %s` (%s workers): %s" % (" ".join(d["cmd"]), conf.get("nprocs"), text)))
    al = [c.alone(i, variant) for i in range(len(d["singles"]))]
    if q.hang or (q.rep and (q.rep["steplimit"] or q.rep["deadlock"])): add("hang", "does not end"); return out, q, 0
    if q.rc:
        if all(x[0].rc == 0 for x in al): add("list-fails", "exit %s, but every item alone succeeds: %s" % (q.rc, q.err[-200:].decode("utf-8", "replace")))
        return out, q, 0
    for (argv, sel), (q1, t1) in zip(d["singles"], al):
        if q1.rc:
            if d["mod"] not in ("eigenfn", "eigenv"): add("item-fails", "the list succeeds, but `grt %s` ends with %s: %s" % (" ".join(argv), q1.rc, q1.err[-200:].decode("utf-8", "replace"))); break
            continue
        n += 1
        if d["kind"] == "tree": x = cmp_tree(d, t, t1, sel)
        elif d["kind"] == "kernel": x = cmp_kernel(d, t, t1, sel)
        elif d["kind"] == "lines": x = cmp_lines(d, q.out, q1.out, sel)
        else:
            x = None
            for f in [d["out"]] if isinstance(d["out"], str) else d["out"]: x = x or cmp_nc(d, f, t, t1, sel)
        if x: add("item-differs", "compared with `grt %s`: %s" % (" ".join(argv), x)); break
    return out, q, n

def conf_for(r):
    c = dict(nprocs=r.choice([1, 1, 2, 3, 4, 8]), seed=r.randrange(1 << 40), policy=r.choice([0, 1, 2, 4, 5, 6, 3]), chunk=r.choice([0, 1, 2]), garbage=r.choice([-1, 0, r.randrange(1, 1 << 30)]))
    if r.random() < .2: c.update(variant="tsan", mean=r.choice([400, 2000, 20000]), maxsteps=1500000000)
    return c

def explore(r, o, tier):
    name = r.choice(GENS); d = g_kinds()[name](r)
    if d is None: o.skipped += 1; return
    try: c = Case(d, o.note)
    except Bad: o.skipped += 1; o.st["skipped:" + name] += 1; return
    with c:
        for i in range(3):
            conf = conf_for(r); v = conf.pop("variant", "plain")
            out, q, n = judge(c, conf, v)
            o.st["batch:" + d["mod"]] += 1; o.st["items_compared"] += n; o.st["batch_failed" if q.rc else "batch_succeeded"] += 1; o.st["workers:%d" % conf["nprocs"]] += 1
            if n: o.distinct.add(engine.h(d["cmd"], q.rep["sched_hash"] if q.rep else 0, conf["garbage"]))
            if i == 0: o.samples.append(dict(cmd=" ".join(d["cmd"]), items=len(d["singles"]), compared=n, exit=q.rc))
            for sig, text in out: o.violation(sig, text, dict(d=d, conf=conf, variant=v))
            if q.rc: break

def execute(desc):
    build.build(desc["variant"]); d = desc["d"]; d = dict(d, singles=[(a, s and {k: tuple([tuple(z) if isinstance(z, list) else z for z in y] for y in x) for k, x in s.items()} if isinstance(s, dict) else s) for a, s in d["singles"]])
    with Case(d) as c: return judge(c, desc["conf"], desc["variant"])[0]

def shrink(desc):
    d = desc["d"]; c = desc["conf"]
    if len(d["singles"]) > 1:
        for s in d["singles"]: yield dict(desc, d=dict(d, singles=[s]))
    if desc["variant"] != "plain": yield dict(desc, variant="plain")
    if c.get("nprocs") != 1: yield dict(desc, conf=dict(c, nprocs=1))
    if c.get("garbage", -1) != -1: yield dict(desc, conf=dict(c, garbage=-1))
