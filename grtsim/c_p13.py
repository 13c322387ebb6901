"""P13: histories of runs into one output root, against a reference model of the root"""
import copy
from faultcheck import *
import faultcheck as fc
from work import fmt
del shrink
ID = "P13"; LEVEL = "exploration"; VARIANTS = ["plain"]
CASES = dict(quick=20000, thorough=200000); BUDGET = dict(quick=80, thorough=1500)
RULE = "distinct histories (sequence of operation kind, outcome, number of entries in the root, selector combination, directory order)"
ASSUME = ["Models are identified by file name, as documented; entries by the directory named after model, source depth, receiver depth and distance.",
          "The reference model holds, for every file of the root, the bytes the last successful run writes when it runs alone in an empty directory; a synthesis must equal the synthesis from a directory that holds only the requested entry.",
          "After a failed or killed run only the files that run was writing are undefined; a synthesis may then be refused but must not use another entry.",
          "Selectors nearer than 0.002 km to a stored value without being equal to it are not generated."]
NAMES = [("m", "m_1"), ("m", "n"), ("a.mod", "a"), ("m_1", "m_1_2"), ("mod 1", "mod"), ("m_1", "m"), ("M", "m")]
MODEL = ["0.5 3.4 1.9 2.3\n1 4.5 2.5 2.5\n0 6 3.5 2.7\n", "1 3 1.6 2.2\n0 5.5 3.1 2.6\n", "0.5 3.4 1.9 2.3 300 100\n0 6.1 3.6 2.8 600 300\n"]
FOREIGN = ["notes.txt", ".hidden", "{m}_1_2", "{m}_a_b_c", "{m}_1_2_nan", "{m}_1_0_5x", "{m}__1_0_5", "x_1_0_5", "{m}_1_0_5@file", "command@dir", "{m}@dir", "{m}1_0_2_5", "backup@dir", "{m}_1_0_5.bak", "{m}_1_0_0x", "{m}_1_ 0_5x"]
DS = [0.5, 1.0, 1.5, 2.25]; DR = [0.0, 0.3, 0.7]; RS = [2, 3.5, 5, 7.125, 10]; FAR = [300.1, 1000.1, 640.7]

def rvals(r):
    v = r.sample(RS, r.choice([1, 1, 2]))
    return sorted(v)
def num(r, x):
    """the same number written differently"""
    return r.choice([fmt(x)] * 4 + ["%.1f" % x if abs(x * 10 - round(x * 10)) < 1e-9 else fmt(x), "%.3f" % x, "%.6fe0" % x])

def gen(r):
    pair = r.choice(NAMES); files = {pair[0]: r.choice(MODEL), pair[1]: r.choice(MODEL)}; far = r.random() < .12
    ops = []; n = r.randint(4, 10)
    ds, dr = r.sample(DS, r.choice([1, 2, 3])), r.sample(DR, r.choice([1, 1, 2])); rs = r.sample(FAR if far else RS, r.choice([1, 2, 3]))
    for i in range(n):
        k = r.random(); m = pair[0] if r.random() < .85 else pair[1]
        a, b, c = sorted(r.sample(ds, r.choice([1, 1, min(2, len(ds))]))), sorted(r.sample(dr, r.choice([1, 1, min(2, len(dr))]))), sorted(r.sample(rs, r.choice([1, 1, min(2, len(rs))])))
        D = ["-D%s/%s" % (num(r, a[0]), num(r, b[0]))] if len(a) == 1 and len(b) == 1 and r.random() < .6 else ["-Ds" + ",".join(num(r, x) for x in a), "-Dr" + ",".join(num(r, x) for x in b)]
        if k < .42 or i == 0:
            nt = r.choice([6, 8]); g = ["greenfn", "-M" + m] + D + ["-N%d/%s" % (nt, "0.2" if not far else "4"), "-R" + ",".join(num(r, x) if r.random() < .15 else fmt7(x) for x in c), "-OGRN", "-K+k%s" % r.choice("34") if not far else "-K+k2", "-s"] + (["-L%s" % "8"] if far else [])
            if r.random() < .3: g.append("-e")
            if r.random() < .15: g.append("-G" + r.choice(["e", "s", "vh"]))
            op = dict(op="run", argv=g)
        elif k < .5: op = dict(op="run", argv=["modsum", "-C%s.nc" % m.replace(" ", "")] + D + ["-R" + ",".join(fmt7(x) for x in c), "-OGRN", "-N0", "-s"], eig=m)
        elif k < .6: op = dict(op="foreign", name=r.choice(FOREIGN).replace("{m}", m), argv=["greenfn", "-M" + m] + D + ["-N6/0.2", "-R" + fmt7(c[0]), "-OGRN", "-K+k3", "-s"])
        else:
            s = ["syn", "-GGRN", "-A%d" % r.randint(0, 359), "-S1e20", "-Osyn", "-M33/50/70"]
            w = lambda v: num(r, r.choice(v)) if r.random() < .85 else fmt7(r.choice(v) + r.choice([.01, -.003, 1]))
            far_or = lambda v: fmt7(r.choice(v)) if far else w(v)
            if r.random() < .7: s.append("-Ds" + w(ds))
            if r.random() < .6: s.append("-Dr" + w(dr))
            if r.random() < .7: s.append("-R" + far_or(rs))
            op = dict(op="syn", argv=s)
        if r.random() < .2 and op["op"] == "run": op["fail"] = [r.random(), r.choice(["crash", "torn", "fault"]), r.randrange(1 << 30)]
        op["dirseed"] = r.choice([0, r.randrange(1, 1 << 30)])
        ops.append(op)
    return dict(files=files, ops=ops)

def fmt7(x): return "%.7g" % x

class World:
    """the real root (one directory, real program) beside the reference model"""
    def __init__(self, desc, note=None):
        self.d = desc; self.note = note; self.exe = build.build_path("plain"); self.sc = Scratch("h"); p = self.sc.path
        self.w = os.path.join(p, "w"); self.aux = os.path.join(p, "x"); os.mkdir(self.w); os.mkdir(self.aux); put(self.w, desc["files"])
        self.files = {}      # root-relative path -> bytes (reference model)
        self.undef = set(); self.owner = None; self.cache = {}; self.n = 0; self.exists = False; self.loglines = []; self.logundef = False
    def close(self): rmtree(self.sc.path)
    def fresh(self, extra=None):
        self.n += 1; w = os.path.join(self.sc.path, "s%d" % self.n); os.mkdir(w); put(w, self.d["files"])
        for p, v in (extra or {}).items():
            f = os.path.join(w, p); os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "wb") as fp: fp.write(v)
        return w
    def sim(self, argv, w, conf=None, trace=False):
        q = sim(self.exe, argv, w, self.aux, conf=dict(dict(maxops=60000, cpu=40), **(conf or {})), trace=trace, tag="r")
        if self.note: self.note(q)
        return q
    def alone(self, op):
        """the run alone in an empty directory: (ok, {path: bytes}, ops)"""
        k = tuple(op["argv"])
        if k not in self.cache:
            extra = {}
            if op.get("eig"):
                nc = self.eig(op["eig"])
                if nc is None: self.cache[k] = None; return None
                extra = nc
            w = self.fresh(extra); q = self.sim(op["argv"], w, trace=True); t = tree(w); rmtree(w)
            self.cache[k] = (q.rc == 0, {p[4:]: v for p, v in t.items() if p.startswith("GRN/") and isinstance(v, bytes)}, q.ops, q.err[-200:])
        return self.cache[k]
    def eig(self, m):
        k = ("eig", m); name = "%s.nc" % m.replace(" ", "")
        if k not in self.cache:
            w = self.fresh(); q = self.sim(["eigenv", "-M" + m, "-SR", "-F0/1/0.25", "-C" + name, "-N1", "-s"], w); t = tree(w); rmtree(w)
            self.cache[k] = {name: t[name]} if q.rc == 0 and name in t else None
        return self.cache[k]
    def root(self): return {p[4:]: v for p, v in tree(self.w).items() if p.startswith("GRN/")}
    def entries(self):
        """directory -> header values of the model's entries, from the reference files"""
        E = {}
        for p, v in self.files.items():
            d = os.path.dirname(p)
            if d and p.endswith(".sac") and len(v) >= 632:
                f = struct.unpack("<70f", v[:280]); E.setdefault(d, (f[38], -f[32] * 1e-3, f[50]))
        return E
def fdepth(d):
    a = d.rsplit("_", 3); return float(a[1]), float(a[2]), float(a[3])

import struct
def step(W, op, out, st):
    """runs one operation on the real root and on the model; appends (kind, text) to out"""
    files = W.d["files"]
    def add(kind, text): out.append(("%s %s" % (ID, kind), "`grt %s`: %s" % (" ".join(op["argv"]), text)))
    if op["op"] in ("run", "foreign"):
        a = op["argv"]; al = W.alone(op); model = op.get("eig") or a[1][2:]
        if al is None or not al[0]: st["skipped"] += 1; return "skip"
        ok, prod, ops, _ = al; before = W.root(); fpath = None
        if op["op"] == "foreign":
            n, _, kind = op["name"].partition("@"); fpath = os.path.join(W.w, "GRN", n)
            if os.path.lexists(fpath) or not os.path.isdir(os.path.join(W.w, "GRN")): return "skip"
            isdir = kind == "dir" or (kind != "file" and (n.startswith(model + "_") or n.endswith("_1_0_5") or "1_0_2_5" in n))
            os.mkdir(fpath) if isdir else put(os.path.join(W.w, "GRN"), {n: "foreign\n"})
            before = W.root()
        if op.get("eig"): put(W.w, W.eig(op["eig"]))
        conf = dict(dirseed=op["dirseed"])
        if op.get("fail"):
            u, kind, fs = op["fail"]; o = ops[int(u * len(ops)) % len(ops)]
            if kind == "torn" and o[1] != "write": o = next((x for x in ops[ops.index(o):] if x[1] == "write"), o); kind = kind if o[1] == "write" else "crash"
            f = [F_TORN, fs % 1000, 0] if kind == "torn" else [F_CRASH, 0, 0] if kind == "crash" else fault_for(random.Random(fs), o[1], o[2], o[3])
            if f: conf["faults"] = [[o[0]] + f]
        q = W.sim(a, W.w, conf); after = W.root(); fired = bool(q.rep and q.rep["fault_info"])
        accept = op["op"] != "foreign" and W.owner in (None, model)
        res = "ok"
        if not accept:
            res = "refused"
            if q.rc == 0: add("accepted-foreign-root", "exits 0 although the root holds %s" % (op["name"] if op["op"] == "foreign" else "entries of model " + str(W.owner))); res = "bad"
            d = tdiff(before, after)
            if d and not (W.owner is None and op["op"] != "foreign"): add("refused-run-changed-root", "%s %s" % d[0]); res = "bad"
        elif q.rc != 0 and not fired: add("failed-in-shared-root", "succeeds alone but fails here: %s" % q.err[-200:].decode("utf-8", "replace")); res = "bad"
        elif q.rc != 0:
            res = "failed"; W.undef |= set(prod) | {model, "command"}; W.logundef = True
            if after: W.owner = model
        else:
            W.owner = model; W.undef -= {p for p in prod if p != "command"}
            for p, v in prod.items():
                if p != "command": W.files[p] = v
            W.loglines.append(" ".join(["grt"] + a))
        if fpath:
            if os.path.isdir(fpath): os.rmdir(fpath)
            elif os.path.exists(fpath): os.remove(fpath)
        if res in ("ok", "failed"):
            got = W.root()
            for p in sorted(set(got) | set(W.files)):
                if p in W.undef or p == "command": continue
                if got.get(p) is None and p not in W.files: # a directory: must be an entry of some accepted run
                    if p in got and not any(x.startswith(p + "/") for x in list(W.files) + list(W.undef)): add("unexpected-directory", "%s appeared in the root" % p); break
                    continue
                if p not in W.files: add("unexpected-file", "%s appeared in the root" % p); break
                if p not in got: add("entry-lost", "%s is missing from the root" % p); break
                if got[p] != W.files[p]: add("entry-differs", "%s differs from what its last successful run writes alone" % p); break
            if isinstance(got.get("command"), bytes):
                L = [re.sub(r"\s+$", "", l) for l in got["command"].decode("utf-8", "replace").split("\n") if l.strip()]
                if not W.logundef and len(L) != len(W.loglines): add("log-differs", "%d lines in the command log after %d accepted runs" % (len(L), len(W.loglines)))
            elif W.files: add("log-missing", "no command log")
            # model copy and root agree with one model
        return res
    # synthesis
    E = W.entries(); a = op["argv"]
    shutil.rmtree(os.path.join(W.w, "syn"), ignore_errors=True)
    q = W.sim(a, W.w, dict(dirseed=op["dirseed"])); t = {p[4:]: v for p, v in tree(W.w).items() if p.startswith("syn/")}
    sel = {}
    for x in a:
        if x.startswith("-Ds"): sel[0] = float(x[3:])
        elif x.startswith("-Dr"): sel[1] = float(x[3:])
        elif x.startswith("-R"): sel[2] = float(x[2:])
    names = {d: fdepth(d) for d in E}
    match = [d for d, v in names.items() if all(abs(v[i] - x) < 1e-9 * max(1, abs(x)) for i, x in sel.items())]
    vals = [{round(v[i], 6) for v in names.values()} for i in range(3)]
    need = [i for i in range(3) if len(vals[i]) > 1 and i not in sel]
    dirty = any(p.endswith(".sac") for p in W.undef)
    expect = match[0] if len(match) == 1 and not need else None
    what = "root with %s" % (", ".join(sorted(E)[:6]) or "no entry")
    if q.rc == 0:
        if not dirty and expect is None: add("syn-accepted-ambiguous" if len(match) > 1 or need else "syn-used-unrequested-entry", "exits 0 on a %s (%d entries match, undetermined: %s)" % (what, len(match), [["source depth", "receiver depth", "distance"][i] for i in need])); return "bad"
        cand = [expect] if expect else match
        if any(p in W.undef for d in cand for p in list(W.files) + list(W.undef) if p.startswith(d + "/")): return "syn-dirty"
        if dirty and any(p.endswith(".sac") and all(abs(fdepth(os.path.dirname(p))[i] - x) < 1e-9 * max(1, abs(x)) for i, x in sel.items()) for p in W.undef): return "syn-dirty"
        if not cand: add("syn-used-unrequested-entry", "exits 0 on a %s" % what); return "bad"
        good = False
        for d in cand:
            key = ("syn", d, tuple(a), tuple(sorted((p, hash(v)) for p, v in W.files.items() if p.startswith(d + "/"))))
            if key not in W.cache:
                w = W.fresh({"GRN/" + p: v for p, v in W.files.items() if p.startswith(d + "/")}); a2 = [x for x in a if not x.startswith(("-Ds", "-Dr", "-R", "-G"))] + ["-GGRN/" + d]
                q2 = W.sim(a2, w); W.cache[key] = (q2.rc, {p[4:]: v for p, v in tree(w).items() if p.startswith("syn/")}); rmtree(w)
            rc, t2 = W.cache[key]
            if rc == 0 and t2 == t: good = True
        if not good: add("syn-used-other-entry", "the result is not the synthesis from %s (%s)" % (cand[0], what)); return "bad"
        return "syn"
    if expect and not dirty:
        key = ("syn", expect, tuple(a), tuple(sorted((p, hash(v)) for p, v in W.files.items() if p.startswith(expect + "/"))))
        w = W.fresh({"GRN/" + p: v for p, v in W.files.items() if p.startswith(expect + "/")}); a2 = [x for x in a if not x.startswith(("-Ds", "-Dr", "-R", "-G"))] + ["-GGRN/" + expect]
        q2 = W.sim(a2, w); rmtree(w)
        if q2.rc == 0: add("syn-refused-existing-entry", "refused although %s was requested and exists: %s" % (expect, q.err[-160:].decode("utf-8", "replace"))); return "bad"
        return "syn-unusable"
    if any(isinstance(v, bytes) and v for v in t.values()): add("refused-syn-wrote", "refused but wrote %s" % sorted(t)[0])
    return "syn-refused"

def run(desc, note=None, st=None):
    import collections
    W = World(desc, note); out = []; tr = []; st = st if st is not None else collections.Counter()
    try:
        for op in desc["ops"]:
            n = len(out); r = step(W, op, out, st); tr.append((op["op"], r)); st["step:%s:%s" % (op["op"], r)] += 1
            if len(out) > n: break
        ne = len(W.entries())
    finally: W.close()
    return out, tr, ne

def explore(r, o, tier):
    desc = gen(r); out, tr, ne = run(desc, o.note, o.st)
    o.distinct.add(engine.h(tr, ne, [[x[:3] for x in op["argv"] if x[:2] in ("-D", "-R")] for op in desc["ops"]], [bool(op["dirseed"]) for op in desc["ops"]]))
    o.st["histories"] += 1; o.st["operations"] += len(tr); o.st["dir_orders"] += sum(1 for op in desc["ops"] if op["dirseed"])
    o.samples.append(dict(history=["%s -> %s" % (" ".join(op["argv"])[:90], t[1]) for op, t in zip(desc["ops"], tr)][:6]))
    for sig, text in out: o.violation(sig, text, desc)

def execute(desc): return run(desc)[0]
def shrink(desc):
    ops = desc["ops"]
    for i in range(len(ops)): yield dict(desc, ops=ops[:i] + ops[i + 1:])
    for i, op in enumerate(ops):
        if op.get("dirseed"): yield dict(desc, ops=ops[:i] + [dict(op, dirseed=0)] + ops[i + 1:])
        if op.get("fail"): yield dict(desc, ops=ops[:i] + [{k: v for k, v in op.items() if k != "fail"}] + ops[i + 1:])
