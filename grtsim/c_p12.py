"""P12: inputs are never altered, nothing outside the declared outputs is touched"""
from faultcheck import *
import faultcheck as fc, c_p10
from work import mk, fmt, MODELS, kopt, rand_model
del shrink
ID = "P12"; LEVEL = "exploration"; VARIANTS = ["plain"]
CASES = dict(quick=20000, thorough=300000); BUDGET = dict(quick=75, thorough=1500)
RULE = "distinct (module, aliasing of input and output, kind of run: success, refusal, fault, crash or allocation failure with what was hit, outcome) combinations"
ASSUME = ["Declared outputs are the paths given with the output options, and for -S the documented statistics directory beside them.",
          "Aliasing covers models, libraries, dispersion files, receiver and fault files; a plain list of numbers named as its own output is not covered.",
          "Contents are compared; modification times and permissions are not.",
          "The temporary file `<output>.part` beside a NetCDF output belongs to the output.",
          "Every mutating file operation outside the scratch directory is recorded and refused by the simulator."]
GENS = [g for g in work.ALL]

# ------------------------------------------------------------------ aliasing scenarios
def spell(r, scn, p, hard=True):
    """another way to reach the file p (relative path); may add links to the scenario"""
    d, b = os.path.split(p); k = r.random()
    if k < .25: return p, "same-path"
    if k < .4: return "./" + p, "dot"
    if k < .55: scn["files"].setdefault("dd/keep", "x\n"); return "dd/../" + p, "dotdot"
    if k < .75 or not hard:
        scn["links"].append(["s", p if not d else p, "ln_" + b]); return "ln_" + b, "symlink"
    scn["links"].append(["h", p, "hl_" + b]); return "hl_" + b, "hardlink"

def opt(cmd, o):
    for i, a in enumerate(cmd):
        if a.startswith(o) and not a.startswith("--"): return i
    return None

def nc_alias(r):
    """a NetCDF-writing command whose output path is one of its inputs"""
    k = r.choice(["stgreen-M", "stsyn-G", "stsyn-Q", "stsyn-C", "eigenv-M", "eigenfn-C", "okada-C", "okada-Q"])
    if k.startswith("stgreen"):
        s = work.static_greenfn(r); s["cmd"] = [c for c in s.cmd if c != "-S"]; o = opt(s.cmd, "-O"); src = s.model
        pre = "-O"
    elif k.startswith("stsyn"):
        for _ in range(60):
            s = work.static_ff(r) if k == "stsyn-C" else work.static_syn(r)
            if k != "stsyn-Q" or "pts" in s.files: break
        src = {"stsyn-G": "stgrn.nc", "stsyn-Q": "pts", "stsyn-C": "cf.inp" if "cf.inp" in s.files else "cf.inr"}[k]; o = opt(s.cmd, "-O"); pre = "-O"
    elif k.startswith("eigenv"): s = work.eigenv(r); src = s.model; o = opt(s.cmd, "-C"); pre = "-C"
    elif k == "eigenfn-C":
        s = work.eigenfn(r); w = r.choice(["W", "U", "K"]); s["cmd"] = [c for c in s.cmd if c[:2] not in ("-W", "-U", "-K")]; src = "ph.nc"
        s["cmd"].append({"W": "-W", "U": "-U", "K": "-K+c"}[w]); o = len(s.cmd) - 1; pre = s.cmd[o]
    else:
        for _ in range(60):
            s = work.okada(r)
            if ("cf.inp" if k == "okada-C" else "pts") in s.files: break
        src = "cf.inp" if k == "okada-C" else "pts"; o = opt(s.cmd, "-O"); pre = "-O"
    s["links"] = []; p, how = spell(r, s, src); s["cmd"] = list(s.cmd); s["cmd"][o] = pre + p
    s["outs"] = []; s["alias"] = k + ":" + how; s["protect"] = [src]; s["stdout"] = False; s["may_fail"] = True
    return s

def root_alias(r):
    """a root that already holds the model under the name the copy will have"""
    g = r.choice(["greenfn", "greenfn", "modsum", "kernel"]); s = getattr(work, g)(r); m = s.model; s["links"] = []
    root = [c for c in s.cmd if c.startswith("-O")][-1][2:]; i = None
    k = r.choice(["inside", "inside-dot", "inside-link", "dirlink", "hardlink", "symlink-in-root", "hardlink", "root-is-link"])
    txt = s.files.pop(m); inner = root + "/" + m; path = m
    if k in ("inside", "inside-dot"): s["files"][inner] = txt; path = inner if k == "inside" else "./" + root + "/../" + inner
    elif k == "inside-link": s["files"][inner] = txt; s["files"]["sub/keep"] = "x\n"; s["links"].append(["s", "../" + inner, "sub/" + m]); path = "sub/" + m
    elif k == "dirlink": s["files"][inner] = txt; s["links"].append(["s", root, "rootln"]); path = "rootln/" + m
    elif k == "hardlink": s["files"][m] = txt; s["files"][root + "/.keep"] = ""; s["links"].append(["h", m, inner])
    elif k == "symlink-in-root": s["files"][m] = txt; s["files"][root + "/.keep"] = ""; s["links"].append(["s", "../" + m, inner])
    else: s["files"][inner] = txt; s["files"]["real/keep"] = "x\n"; path = inner; s["links"].append(["s", root, "rootln"]); s["cmd"] = [c if not c.startswith("-O") else "-Orootln" for c in s.cmd]
    def sub(cmd): return [("-M" + path if c == "-M" + m else c) for c in cmd]
    s["cmd"] = sub(s.cmd); s["setup"] = [sub(a) for a in s.setup]
    s["files"].pop(root + "/.keep", None)
    if k in ("hardlink", "symlink-in-root"): s["mkdirs"] = [root]
    s["outs"] = s.outs + [root, "rootln_grtstats"]; s["alias"] = "model-in-root:" + k; s["protect"] = [p for p in (inner, m, path) if p in s["files"]] ; s["may_fail"] = True
    return s

def syn_alias(r):
    """synthesis into the directory its Green's functions come from"""
    s = work.syn(r); s["links"] = []; e = "GRN/%s_" % s.model; d = next((c[2:] for c in s.cmd if c.startswith("-GGRN/")), None)
    out = d or "GRN"; s["cmd"] = [("-O" + out if c.startswith("-O") else c) for c in s.cmd]; s["outs"] = [out]; s["alias"] = "syn-into-gf"; s["protect_dir"] = out; s["may_fail"] = True
    return s

MUT = ["drop", "twice", "nofile", "badnum", "junk", "foreign"]
def refuse(r, s):
    """turn the command into one that is likely to be refused"""
    c = [x if not x.startswith("@") else "KER" for x in s.cmd]; k = r.choice(MUT); free = [i for i in range(1, len(c)) if not any(o in c[i] for o in s.outs)]
    if free: i = r.choice(free)
    else: k = "junk"
    if k == "drop": c.pop(i)
    elif k == "twice": c.append(c[i])
    elif k == "nofile":
        j = opt(c, "-M") or opt(c, "-G") or opt(c, "-C")
        if j is None: c.append("-Mnone")
        else: c[j] = c[j][:2] + "nofile"
    elif k == "badnum": c[i] = c[i] + r.choice(["/x", "/-1e400", ",,", "+q", "/nan"])
    elif k == "junk": c.append(r.choice(["-Zq", "--what", "extra", "-"]))
    else: s["files"] = dict(s.files, **{s.outs[0] + "/foreign.txt" if s.outs and "." not in s.outs[0] else "foreign.txt": "keep me\n"})
    s["cmd"] = c; s["refusal"] = k; s["may_fail"] = True
    return s

class Prep12(Prep):
    def dir(self, t=None):
        w = super().dir(t)
        for l in self.scn.get("links", []):
            if l[0] == "h":
                f = os.path.join(w, l[2])
                if os.path.lexists(f): os.remove(f)
                if os.path.exists(os.path.join(w, l[1])): os.link(os.path.join(w, l[1]), f)
        return w

def prepare_case(scn, note=None):
    files = scn["files"]
    if scn.get("mkdirs"):       # directories that must exist before links are made
        scn = dict(scn, files=dict(files, **{d + "/.tmpkeep": "" for d in scn["mkdirs"]}))
    s2 = work.S(scn); p = Prep12.__new__(Prep12)
    p.scn = s2; p.exe = build.build_path("plain"); p.sc = Scratch("p"); p.n = 0
    d = p.sc.path; w = os.path.join(d, "w0"); p.aux = os.path.join(d, "x"); os.mkdir(w); os.mkdir(p.aux)
    try:
        put(w, s2["files"])
        for l in s2.get("links", []):
            if l[0] == "h" and not os.path.exists(os.path.join(w, l[1])): continue
            f = os.path.join(w, l[2]); os.makedirs(os.path.dirname(f), exist_ok=True)
            (os.symlink(l[1], f) if l[0] == "s" else os.link(os.path.join(w, l[1]), f))
        for x in s2.get("mkdirs", []): os.remove(os.path.join(w, x, ".tmpkeep"))
        for a in s2["setup"]:
            q = sim(p.exe, resolve(a, tree(w)), w, p.aux, conf=dict(maxops=60000, cpu=20), tag="s"); note and note(q)
            if q.rc: raise Bad("setup")
        for l in s2.get("links", []):
            if l[0] == "h" and not os.path.lexists(os.path.join(w, l[2])): os.link(os.path.join(w, l[1]), os.path.join(w, l[2]))
    except Exception as e:
        p.close(); raise Bad(str(e)) if not isinstance(e, Bad) else e
    p.base = tree(w); p.cmd = resolve(s2["cmd"], p.base); rmtree(w)
    w = p.dir(); p.ref = sim(p.exe, p.cmd, w, p.aux, conf=dict(maxops=60000, cpu=20), trace=True, tag="ref"); p.reft = tree(w); rmtree(w); note and note(p.ref)
    return p

def judge(prep, q, t, kind):
    scn = prep.scn; mod = scn["module"]; out = []; base = prep.base; outs = scn["outs"]; prot = set(scn.get("protect", []))
    tagk = scn.get("alias") or ("refused:" + scn["refusal"] if scn.get("refusal") else kind)
    def add(sig, text): out.append(("%s %s %s [%s]" % (ID, mod, sig, tagk), "`grt %s`%s, exit %s: %s" % (" ".join(prep.cmd), " (%s)" % "; ".join(q.rep["fault_info"]) if q.rep and q.rep["fault_info"] else "", q.rc, text)))
    if q.rep and q.rep["escapes"]: add("escape", "%d operations outside the working directory, first on %s" % (q.rep["escapes"], q.rep["escape_path"]))
    if scn.get("protect_dir"): prot |= {p for p in base if under(p, [scn["protect_dir"]]) and isinstance(base[p], bytes)}
    if scn["inplace"]:
        p = outs[0]
        if q.rc is not None:
            try: a = nc_parse(base[p])
            except NCError: a = None
            if a:
                try:
                    b = nc_parse(t.get(p, b""))
                    for k, v in a[2].items():
                        if k not in b[2]: add("in-place-lost", "variable %s is gone" % k); break
                        if b[2][k][3] != v[3]: add("in-place-changed", "the values of %s changed" % k); break
                    else:
                        for k, v in a[1].items():
                            if b[1].get(k) != v: add("in-place-attribute", "attribute %s changed" % k); break
                except NCError as e: add("in-place-unreadable", str(e))
    own = any(c == "-S" or c.startswith("-S") for c in prep.cmd)
    for p, k in tdiff(base, t):
        if p in prot: add("input-%s" % ("removed" if k == "missing" else "altered"), "%s %s" % (p, k)); break
        if under(p, outs) or (p.endswith(".nc.part") and p[:-5] in outs): continue
        if k == "unexpected" and p in prep.reft and p not in base and any(under(p, [o]) for o in outs): continue
        add("outside-%s" % {"missing": "removed", "unexpected": "created", "differs": "altered"}[k], "%s %s, which is not a declared output" % (p, k)); break
    return out

def conf_for(r, prep):
    ops = prep.ref.ops; k = r.random()
    if k < .12 or not ops: return "plain", dict(nprocs=r.choice([1, 2, 4]))
    if k < .5:
        o = r.choice(ops if r.random() < .85 or not prep.ref.libops else prep.ref.libops); f = fault_for(r, o[1], o[2], o[3])
        if f: return "fault", dict(faults=[[o[0]] + f])
    if k < .8: 
        c = c_p10.plan(r, ops)
        if c[0]: return "crash", dict(faults=[c])
    return "alloc", dict(alloc_fail=r.randrange(max(1, prep.ref.rep["allocs"] if prep.ref.rep else 1)), alloc_mode=r.choice([0, 1, 2]))

def make(r):
    k = r.random()
    if k < .2: return nc_alias(r), 2
    if k < .35: return root_alias(r), 3
    if k < .4: return syn_alias(r), 3
    s = work.ALL[r.choice(GENS)](r)
    if k < .6: return refuse(r, s), 1
    return s, 7

def explore(r, o, tier):
    scn, n = make(r)
    try: prep = prepare_case(scn, note=o.note)
    except Bad: o.skipped += 1; return
    with prep:
        o.st["scenario:" + scn["module"]] += 1; o.st["alias:" + scn["alias"] if scn.get("alias") else "refusal:" + scn["refusal"] if scn.get("refusal") else "ordinary"] += 1
        runs = [("plain", {}, prep.ref, prep.reft)]
        for i in range(n):
            kind, conf = conf_for(r, prep)
            if prep.ref.hang: break
            if scn.get("refusal"): conf = dict(conf, cpu=20)
            q, t = prep.run(conf); o.note(q); runs.append((kind, conf, q, t))
        for kind, conf, q, t in runs:
            o.st["run:%s:%s" % (kind, "success" if q.rc == 0 else "failure")] += 1
            o.distinct.add(engine.h(scn["module"], scn.get("alias"), scn.get("refusal"), kind, fault_class(scn, q) if kind in ("fault", "crash") else conf.get("alloc_fail", 0) % 50, q.rc == 0))
            for sig, text in judge(prep, q, t, kind): o.violation(sig, text, dict(scn=scn, conf=conf, kind=kind))
        o.samples.append(dict(cmd=" ".join(prep.cmd), alias=scn.get("alias"), refusal=scn.get("refusal"), exits=[x[2].rc for x in runs]))

_c = {}
def execute(desc):
    import json
    k = json.dumps(desc["scn"], sort_keys=True)
    if k not in _c:
        for p in _c.values(): p.close()
        _c.clear(); _c[k] = prepare_case(desc["scn"])
    p = _c[k]
    if desc["kind"] == "plain" and not desc["conf"]: return judge(p, p.ref, p.reft, "plain")
    q, t = p.run(desc["conf"]); return judge(p, q, t, desc["kind"])
import atexit
@atexit.register
def _cl():
    for p in _c.values(): p.close()
