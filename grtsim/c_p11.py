"""P11: damaged products are not consumed"""
from faultcheck import *
import json
del shrink
ID = "P11"; LEVEL = "exploration"; VARIANTS = ["plain"]
CASES = dict(quick=20000, thorough=200000); BUDGET = dict(quick=75, thorough=1500)
RULE = "distinct (consumer, damaged file class, kind and place of damage, consumer outcome) combinations"
ASSUME = ["Damage is what an interrupted or faulty producer leaves: a missing file, a file cut short at any byte, or the state left by crashing the real producer at one of its file operations (with a torn last write).",
          "A raw statistics file cut exactly between two records carries no sign of the loss (the format has no length field); such cuts are excluded.",
          "Bit rot inside an otherwise complete file is not modelled.",
          "The readers of the Python package run in a real interpreter; a directory of kernel files read as a whole shows no sign of a missing file.",
          "A consumer that would not read the missing part may succeed, with exactly the reference result."]
GENS = ["syn"] * 3 + ["tensor"] * 3 + ["modsum"] * 2 + ["eigenfn"] * 2 + ["static_syn"] * 2 + ["static_ff", "static_tensor", "static_tensor", "disp2asc", "ker2asc", "sac2asc"]

def damage(r, base, scn):
    """[kind, path, keep]"""
    fs = sorted(p for p, v in base.items() if isinstance(v, bytes) and p not in scn["files"] and os.path.basename(p) != "command" and os.path.basename(p) not in scn["files"])
    used = [a for a in scn["cmd"]]
    if not fs: return None
    # prefer files the consumer names
    near = [p for p in fs if any(os.path.basename(p) in a or a.lstrip("-GC") in p for a in used)]
    p = r.choice(near if near and r.random() < .8 else fs); n = len(base[p])
    if r.random() < .08: return ["missing", p, 0]
    k = r.random()
    keep = 0 if k < .06 else n - 1 if k < .2 else n - r.randint(1, min(n, 64)) if k < .4 else r.choice([4, 32, 440, 631, 632, 636, 633]) if k < .5 else r.randrange(n)
    return ["cut", p, max(0, min(keep, n - 1))]

def fmt_dt(rest):
    a, *b = rest.split("+", 1); return "+".join([work.fmt(float(a) * 1.5)] + b)

INPLACE = {"strain", "stress", "rotation"}

def inplace_cmd(a): return a[:1] == ["static"] and a[1] in INPLACE

def apply(base, d):
    t = dict(base)
    if d[0] == "missing": del t[d[1]]
    else: t[d[1]] = t[d[1]][:d[2]]
    return t

def resample(r, setup):
    """the set-up with its producing command asked for another sampling (record length or step, frequencies, distances, receivers); None if it has none"""
    L = [list(a) for a in setup]
    for k in range(len(L) - 1, -1, -1):
        a = L[k]; m = a[1] if a[0] == "static" else a[0]
        def sub(opt, f):
            i = next((i for i, x in enumerate(a) if x.startswith(opt)), None)
            if i is None: return False
            v = f(a[i][len(opt):])
            if v is None: return False
            a[i] = opt + v; return True
        def grid(v):
            x = v.split("/"); return None if len(x) != 3 else "/".join([x[0], work.fmt(float(x[1]) + r.choice([1, 2]) * float(x[2])), x[2]]) if r.random() < .6 else "/".join([x[0], x[1], work.fmt(float(x[2]) * r.choice([.5, 2]))])
        if m == "greenfn" and a[0] != "static":
            def n(v):
                n0, rest = v.split("/", 1); return "%d/%s" % (max(4, int(n0) + r.choice([-3, -1, 1, 2, 5])), rest) if r.random() < .7 else "%s/%s" % (n0, fmt_dt(rest))
            if sub("-N", n): return L
        elif m == "eigenv":
            if r.random() < .3 and sub("-S", lambda v: {"R": "L", "L": "R"}[v]): return L
            if sub("-F", lambda v: grid(v) if "+" not in v and v.count("/") == 2 else None): return L
        elif m in ("syn", "okada") and any(x.startswith("-X") for x in a):
            if sub(r.choice(["-X", "-Y"]), grid): return L
        elif m == "greenfn":
            if r.random() < .4 and sub("-K+k", lambda v: "4" + v.lstrip("0123456789")): return L
            if sub(r.choice(["-X", "-Y"]), grid) or sub("-R", grid): return L
    return None

def renewed(prep, sub):
    """the set-up repeated with another sampling on top of the complete products: state before its last command, that command, and what the consumer gives once it has ended"""
    c = prep.__dict__.setdefault("renew", {}); key = repr(sub)
    if key not in c:
        w = prep.dir(); ok = True
        for a in sub[:-1]: ok &= sim(prep.exe, a, w, prep.aux, tag="s").rc == 0
        b = tree(w); q = sim(prep.exe, sub[-1], w, prep.aux, trace=True, tag="s"); ok &= q.rc == 0; k = sim(prep.exe, prep.cmd, w, prep.aux, tag="s"); t = tree(w)
        rmtree(w); w = prep.dir(b); o = sim(prep.exe, prep.cmd, w, prep.aux, tag="s"); ot = tree(w); rmtree(w)      # the last command not repeated at all
        c[key] = dict(before=b, cmd=sub[-1], ops=q.ops, libops=q.libops, ok=ok and k.rc == 0, out=k.out, t=t, old=(o.rc, o.out, ot))
    return c[key]

def run(prep, desc, o=None):
    if desc["kind"] == "damage":
        t = apply(prep.base, desc["damage"]); note = "%s of %s to %d of %d bytes" % (desc["damage"][0], desc["damage"][1], desc["damage"][2], len(prep.base[desc["damage"][1]]))
    elif desc["kind"] == "rerun":
        new = renewed(prep, desc["sub"]); w = prep.dir(new["before"]); c = sim(prep.exe, new["cmd"], w, prep.aux, conf=dict(faults=[desc["crash"]]), tag="prod"); o and o.note(c); t = tree(w); rmtree(w)
        note = "`grt %s` over the complete earlier product interrupted at %s" % (" ".join(new["cmd"]), "; ".join(c.rep["fault_info"]) if c.rep else "?")
    else:
        w = prep.dir(prep.before); c = sim(prep.exe, prep.producer, w, prep.aux, conf=dict(faults=[desc["crash"]]), tag="prod"); o and o.note(c); t = tree(w); rmtree(w)
        note = "producer `grt %s` interrupted at %s" % (" ".join(prep.producer), "; ".join(c.rep["fault_info"]) if c.rep else "?")
    w = prep.dir(t); q, t2 = prep.run(None, w=w); rmtree(w)
    return q, t2, note, t

def judge(prep, desc, q, t2, note, t):
    scn = prep.scn; mod = scn["module"]; out = []
    what = "rerun" if desc["kind"] == "rerun" else "%s:%s" % (desc["kind"], fclass(desc["damage"][1]) + "-" + desc["damage"][0] if desc["kind"] == "damage" else desc["crash"][1])
    if q.hang or (q.rep and (q.rep["steplimit"] or q.rep["deadlock"])): return [("P11 %s hang" % mod, "`grt %s` does not end; %s" % (" ".join(prep.cmd), note))]
    if q.rc != 0: return out
    new = renewed(prep, desc["sub"]) if desc["kind"] == "rerun" else None
    if scn["stdout"]:
        if q.out != prep.ref.out and not (new and (q.out == new["out"] or q.out == new["old"][1])):
            if mod == "ker2asc" and prep.ref.out.startswith(q.out) and whole_records(prep, t): return out
            out.append(("P11 %s success-with-%s <stdout> %s" % (mod, "truncated" if prep.ref.out.startswith(q.out) else "different", what), "`grt %s` exits 0 with another table; %s" % (" ".join(prep.cmd), note)))
        return out
    for p in scn["outs"]:
        for path, v in sorted(prep.reft.items()):
            if not (path == p or path.startswith(p + "/")) or v is None: continue
            if t2.get(path) == v or (new and (t2.get(path) == new["t"].get(path) or t2.get(path) == new["old"][2].get(path))): continue
            if scn["inplace"] or path not in prep.base:
                if scn["tol"] and path in t2 and nc_close(v, t2[path], scn["tol"]) is None: continue
                if path == desc.get("damage", [0, 0])[1] and not scn["inplace"]: continue
                out.append(("P11 %s success-with-%s %s %s" % (mod, "missing" if path not in t2 else "different", pclass(scn, path), what), "`grt %s` exits 0 but %s is not what the complete input gives; %s" % (" ".join(prep.cmd), path, note))); return out
    return out

def whole_records(prep, t):
    """the statistics file was cut exactly between two records, which the format cannot show"""
    f = prep.cmd[1]; n = len(prep.base[f]); recs = max(prep.ref.out.count(b"\n") - 1, 1); v = t.get(f)
    return isinstance(v, bytes) and prep.base[f].startswith(v) and n % recs == 0 and len(v) % (n // recs) == 0

def prepare_case(scn, note=None):
    scn["setup"] = [a for a in scn["setup"] if not inplace_cmd(a)]
    p = Prep(scn, note=note)
    # the state before the last set-up command, and its operations
    p.producer = None
    if scn["setup"]:
        w = p.dir({}); put(w, scn["files"])
        for a in scn["setup"][:-1]: sim(p.exe, resolve(a, tree(w)), w, p.aux, tag="s")
        p.before = tree(w); p.producer = resolve(scn["setup"][-1], p.before)
        q = sim(p.exe, p.producer, w, p.aux, trace=True, tag="pr"); p.prodops = q.ops; p.prodlib = q.libops; rmtree(w)
        if note: note(q)
    return p

def explore(r, o, tier):
    import c_p10
    if r.random() < .07: return py_explore(r, o)
    name = r.choice(GENS); scn = work.ALL[name](r)
    if not scn["setup"]: o.skipped += 1; return
    try: prep = prepare_case(scn, note=o.note)
    except Bad: o.skipped += 1; o.st["skipped:" + name] += 1; return
    with prep:
        o.st["scenario:" + scn.module] += 1
        for i in range(8):
            sub = resample(r, scn["setup"]) if r.random() < .3 else None
            if sub:
                new = renewed(prep, sub)
                if sub == scn["setup"] or not new["ok"]: continue
                desc = dict(scn=scn, kind="rerun", sub=sub, crash=c_p10.plan(r, new["ops"], scn, new["libops"]))
                if not desc["crash"][0]: continue
            elif r.random() < .3 and prep.prodops: 
                desc = dict(scn=scn, kind="crash", crash=c_p10.plan(r, prep.prodops, scn, prep.prodlib))
                if not desc["crash"][0]: continue
            else:
                d = damage(r, prep.base, scn)
                if not d: continue
                desc = dict(scn=scn, kind="damage", damage=d)
            q, t2, note, t = run(prep, desc, o); o.note(q)
            o.st["fault:file-" + desc["damage"][0] if desc["kind"] == "damage" else "producer_crashes" if desc["kind"] == "crash" else "rerun_crashes"] += 1; o.st["consumer:" + ("success" if q.rc == 0 else "failure")] += 1
            place = desc["crash"][:3] if desc["kind"] != "damage" else [pclass(scn, desc["damage"][1]), desc["damage"][2] if desc["damage"][2] < 700 else len(prep.base[desc["damage"][1]]) - desc["damage"][2]]
            o.distinct.add(engine.h(scn.module, desc["kind"], place, q.rc == 0))
            if i == 0: o.samples.append(dict(cmd=" ".join(prep.cmd), damage=note, exit=q.rc))
            for sig, text in judge(prep, desc, q, t2, note, t): o.violation(sig, text, desc)

# ------------------------------------------------------------------ the readers of the Python package
def py_scn(r):
    k = r.random()
    if k < .45: s = work.greenfn(r, opts=False, stats=True, deriv=r.random() < .3); s["cmd"] = s.cmd + [work.copt(r)] * (r.random() < .6); pat = "_grtstats"
    elif k < .65: s = work.kernel(r); pat = "KER"
    elif k < .85: s = work.static_greenfn(r, True); s["cmd"] = s.cmd + ["-S"] * ("-S" not in s.cmd); pat = "stgrtstats"
    else: s = r.choice([work.static_greenfn, work.static_syn, work.okada, work.static_ff])(r); pat = None
    return s, pat
def py_calls(base, pat, outs):
    C = []
    for p in sorted(base):
        if not isinstance(base[p], bytes): continue
        b = os.path.basename(p)
        if pat is None:
            if p in outs: C.append(dict(fn="read_static_nc", args=[p], kw={}, reads=[p]))
        elif pat in p and b[:1] in "KC" and b != "command" and "/" in p and re.match(r"^[KC](_|$)", b):
            if "PTAM" not in p: C.append(dict(fn="read_statsfile", args=[p], kw={}, reads=[p]))
            if b[0] == "C" and not any(c["fn"] == "read_kernels_freqs" for c in C):
                d = os.path.dirname(p); C.append(dict(fn="read_kernels_freqs", args=[d], kw={}, reads=sorted(q for q in base if os.path.dirname(q) == d and isinstance(base[q], bytes) and os.path.basename(q).startswith("C_"))))
        elif pat in p and b.startswith("PTAM"):
            e = b.split("_"); e[-3 if len(e) > 2 else 0] = "K"; kb = "_".join(e) if "_" in b else "K"; d = os.path.dirname(p)
            C.append(dict(fn="read_statsfile_ptam", args=[p], kw={}, reads=[os.path.join(os.path.dirname(d), kb), os.path.join(d, kb), p]))
    return [c for c in C if all(q in base for q in c["reads"])]
class PyPrep:
    def __init__(self, scn, pat, note=None):
        import c_p16
        if c_p16._pkg is None: c_p16.prepare()
        self.scn = scn; self.W = c_p16.World(); w = self.W.new(scn["files"]); self.note = note; exe = build.build_path("plain")
        L = scn["setup"] + [scn["cmd"]]
        for i, a in enumerate(L):
            if i == len(L) - 1: self.before = tree(w)
            q = sim(exe, a, w, w + ".x", conf=dict(maxops=60000, cpu=20), trace=i == len(L) - 1, tag="s"); note and note(q)
            if q.rc: self.W.close(); raise Bad("py %s" % a)
        self.ops = q.ops; self.base = tree(w); self.calls = py_calls(self.base, pat, scn["outs"])
        if not self.calls: self.W.close(); raise Bad("no file for the Python readers")
    def reference(self, i):
        w = self.W.new({}); mat(w, self.base); x = self.W.call(w, [self.calls[i]])[0]; rmtree(w)
        return x
    def close(self): self.W.close()
def py_whole(p, i, ref, t):
    # statistics files cut exactly between two records
    c = p.calls[i]; n = {}
    if c["fn"] == "read_statsfile": n[c["reads"][0]] = ref["ret"][2][0]
    elif c["fn"] == "read_statsfile_ptam":
        for k in range(3): n[c["reads"][k]] = ref["ret"][k][2][0]
    elif c["fn"] == "read_kernels_freqs":
        k = next((k for k in ref["ret"] if k[0] != "_"), None)
        for q in c["reads"]: n[q] = ref["ret"][k][2][1] if k else 1
    return any(t.get(q) is not None and t[q] != p.base[q] and n.get(q) and len(p.base[q]) % n[q] == 0 and len(t[q]) % (len(p.base[q]) // n[q]) == 0 for q in c["reads"])
def py_run(p, desc):
    i = desc["call"]; c = p.calls[i]; note = ""
    if desc["how"][0] == "crash":
        w = p.W.new({}); mat(w, p.before); q = sim(build.build_path("plain"), p.scn["cmd"], w, w + ".x", conf=dict(faults=[desc["how"][1]]), tag="prod"); p.note and p.note(q); t = tree(w); note = "`grt %s` interrupted at %s" % (" ".join(p.scn["cmd"]), "; ".join(q.rep["fault_info"]) if q.rep else "?")
    else:
        t = apply(p.base, desc["how"]); w = p.W.new({}); mat(w, t); note = "%s of %s to %d of %d bytes" % (desc["how"][0], desc["how"][1], desc["how"][2], len(p.base[desc["how"][1]]))
    ref = p.reference(i); x = p.W.call(w, [c])[0]; out = []; rmtree(w)
    if not ref["ok"]: return [], x, note
    if x["ok"] and x["ret"] != ref["ret"] and not py_whole(p, i, ref, t):
        if c["fn"] == "read_kernels_freqs" and any(q not in t for q in c["reads"]): return [], x, note      # lists the files that are there
        out.append(("P11 python %s success-with-%s %s" % (c["fn"], "different", desc["how"][0]), "%s(%s) returns other data than for the complete product; %s" % (c["fn"], c["args"][0], note)))
    return out, x, note
def py_explore(r, o):
    import c_p10
    scn, pat = py_scn(r)
    try: p = PyPrep(scn, pat, o.note)
    except Bad as e: o.skipped += 1; o.st["skipped:python"] += 1; return
    try:
        o.st["scenario:python-reader"] += 1
        for k in range(6):
            i = r.randrange(len(p.calls)); c = p.calls[i]
            if r.random() < .3:
                how = ["crash", c_p10.plan(r, p.ops)]
                if not how[1][0]: continue
            else:
                f = r.choice(c["reads"]); n = len(p.base[f])
                how = ["missing", f, 0] if r.random() < .08 else ["cut", f, max(0, min(n - 1, r.choice([n - 1, n - r.randint(1, min(n, 200)), r.randrange(max(n, 1)), 4096 if n > 4096 else n // 2])))]
            out, x, note = py_run(p, dict(call=i, how=how)); o.runs += 1
            o.st["python_reader:" + ("success" if x["ok"] else "failure")] += 1; o.distinct.add(engine.h("py", c["fn"], how[0], how[2] % 8 if how[0] == "cut" else how[1][1:2], x["ok"]))
            for sig, text in out: o.violation(sig, text, dict(pyscn=scn, pat=pat, call=i, how=how))
    finally: p.close()

def prepare():
    import c_p16
    c_p16.prepare()

_c = {}
def execute(desc):
    import json
    if "pyscn" in desc:
        p = PyPrep(desc["pyscn"], desc["pat"])
        try: return py_run(p, desc)[0]
        finally: p.close()
    k = json.dumps(desc["scn"], sort_keys=True)
    if k not in _c:
        for p in _c.values(): p.close()
        _c.clear(); _c[k] = prepare_case(desc["scn"])
    p = _c[k]; q, t2, note, t = run(p, desc); return judge(p, desc, q, t2, note, t)
import atexit
@atexit.register
def _cl():
    for p in _c.values(): p.close()
