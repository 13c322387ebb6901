"""Scenario preparation and the oracle 'same products as the fault-free run of the same tree'."""
import os, random, re, errno
import core, build
from core import *

ECODES = dict(EIO=errno.EIO, ENOSPC=errno.ENOSPC, EACCES=errno.EACCES, EMFILE=errno.EMFILE, EDQUOT=errno.EDQUOT, ENOMEM=errno.ENOMEM, EROFS=errno.EROFS, EPIPE=errno.EPIPE, ENFILE=errno.ENFILE, EINTR=errno.EINTR)

def resolve(argv, t):
    out = []
    for a in argv:
        if a.startswith("@stats:"):
            _, pat, k = a.split(":"); fs = sorted(p for p, v in t.items() if isinstance(v, bytes) and pat in p and os.path.basename(p) != "command" and os.path.dirname(p) and p.count("/") >= 1)
            a = fs[int(k) % len(fs)] if fs else "nostats"
        out.append(a)
    return out

class Bad(Exception): pass

class Prep:
    """Runs the set-up commands and the fault-free reference run."""
    def __init__(self, scn, variant="plain", trace=True, refconf=None, note=None):
        self.scn = scn; self.exe = build.build_path(variant); self.sc = Scratch("p"); self.n = 0
        d = self.sc.path; w = os.path.join(d, "w0"); self.aux = os.path.join(d, "x"); os.mkdir(w); os.mkdir(self.aux)
        put(w, scn["files"])
        for l in scn.get("links", []): (os.symlink if l[0] == "s" else os.link)(l[1] if l[0] == "s" else os.path.join(w, l[1]), os.path.join(w, l[2]))
        refconf = dict(dict(maxops=60000, cpu=20), **(refconf or {}))
        for a in scn["setup"]:
            q = sim(self.exe, resolve(a, tree(w)), w, self.aux, conf=dict(maxops=60000, cpu=20), tag="s")
            if note: note(q)
            if q.rc: raise Bad("setup %s: %s" % (a, q.err[-300:]))
        self.base = tree(w); self.cmd = resolve(scn["cmd"], self.base)
        self.ref = sim(self.exe, self.cmd, w, self.aux, conf=refconf, trace=trace, tag="ref")
        if note: note(self.ref)
        self.reft = tree(w); rmtree(w); self.refs = {variant: (self.ref, self.reft)}
        if self.ref.rc and not scn.get("may_fail"): self.close(); raise Bad("cmd %s: rc %d %s" % (self.cmd, self.ref.rc, self.ref.err[-300:]))
    def reference(self, variant):
        """fault-free one-worker run of another build variant (the same program compiled differently)"""
        if variant not in self.refs:
            w = self.dir(); q = sim(build.build_path(variant), self.cmd, w, self.aux, conf=dict(nprocs=1), tag="ref"); t = tree(w); rmtree(w)
            self.refs[variant] = (q, t)
        return self.refs[variant]
    def dir(self, t=None):
        self.n += 1; w = os.path.join(self.sc.path, "w%d" % self.n); mat(w, self.base if t is None else t); return w
    def run(self, conf, w=None, cmd=None, trace=False, tag="f", exe=None, keep=False):
        own = w is None
        if own: w = self.dir()
        q = sim(exe or self.exe, cmd or self.cmd, w, self.aux, conf=conf, trace=trace, tag=tag); t = tree(w)
        if own and not keep: rmtree(w)
        return q, t
    def close(self): rmtree(self.sc.path)
    def __enter__(self): return self
    def __exit__(self, *a): self.close()

def isnc(p):
    """a NetCDF file, or the temporary file it is written to before it gets its name"""
    return p.endswith((".nc", ".nc.part"))

def fclass(p):
    if p.endswith(".sac"): return "sac"
    if isnc(p): return "nc"
    return "aux"

def pclass(scn, p):
    """path with run-specific parts removed, for signatures"""
    b = os.path.basename(p)
    if b in scn["files"]: return "<input>" if os.path.dirname(p) == "" else "<model copy>"
    if p.endswith(".sac"): return "*.sac"
    if "stats" in p or p.startswith("KER/"):
        if re.match(r"^(K|PTAM|C)[_0-9]*", b): return "<stats>/" + re.sub(r"[0-9].*$", "", b)
    return re.sub(r"[0-9][0-9.e+-]*", "#", b)

def compare(scn, reft, ref_out, t, out, classes, with_stdout):
    """first difference of the declared products with the reference: (class, path, kind) or None"""
    for p, k in tdiff(reft, t):
        if k == "unexpected": continue
        v = reft[p]; c = "dir" if v is None else fclass(p)
        if c == "dir" and not any(isinstance(v2, bytes) and q.startswith(p + "/") and fclass(q) in classes for q, v2 in reft.items()): continue
        if c != "dir" and c not in classes: continue
        if k == "differs" and isinstance(t[p], bytes) and len(t[p]) < len(v) and v.startswith(t[p]): k = "truncated"
        return (c, p, k)
    if with_stdout and scn["stdout"] and out != ref_out: return ("stdout", "<stdout>", "truncated" if ref_out.startswith(out) else "differs")
    return None

def pick_faults(r, ops, scn, want, maxn=1, files={}):
    """a seeded list of faults aimed at operations of the reference run. `want` filters (op kind, path)."""
    cand = [o for o in ops if want(o[1], o[3]) and not (o[1] == "close_w" and isnc(o[3]))]
    if not cand: return None
    # spread over distinct (op kind, path class) rather than over raw counts
    groups = {}
    for o in cand: groups.setdefault((o[1], o[3][:6] if o[1].startswith("lib_") else pclass(scn, o[3])), []).append(o)
    fs = []
    for _ in range(maxn):
        g = groups[r.choice(sorted(groups))]; k = r.random()
        o = g[0] if k < .15 else g[-1] if k < .35 else r.choice(g)
        f = fault_for(r, o[1], o[2], o[3])
        if f and f[0] in (F_ERR, F_DEAD) and o[1] in ("read", "write", "stdout") and not isnc(o[3]) and o[2] > 1 and r.random() < (.6 if o[1] == "read" else .4):
            fs.append([o[0], F_SHORT, r.choice([r.randint(0, 999), 500, 999]), cut_at(r, files.get(o[3])) if o[1] == "read" else 0]); fs.append([o[0] + 1] + f)      # part of the block, then the failure
        elif f: fs.append([o[0]] + f)
    return fs

def cut_at(r, b):
    """a byte position of a file: the end of a line or of a number, or anywhere"""
    if not isinstance(b, bytes) or len(b) < 2: return 0
    k = r.random(); nl = [m.end() for m in re.finditer(rb"\n", b[:4096])]; sp = [m.start() for m in re.finditer(rb"[\s,/]", b[:4096])]
    return r.choice(nl) if k < .5 and nl else r.choice(sp) if k < .7 and sp else r.randint(1, min(len(b), 4096))

def fault_for(r, op, n, path):
    E = ECODES
    if op == "open_r": return [F_ERR, E[r.choice(["EACCES", "EIO", "EMFILE", "ENFILE", "ENOMEM"])], 0]
    if op == "open_w": return r.choice([[F_ERR, E[r.choice(["ENOSPC", "EACCES", "EMFILE", "EROFS", "EDQUOT", "EIO"])], 0], [F_FULL, 0, 0]])
    if op == "read":
        ch = [[F_ERR, E["EIO"], 0], [F_DEAD, 0, 0]]
        if not isnc(path): ch.append([F_SHORT, r.randint(0, 999), 0])
        return r.choice(ch)
    if op == "write": return r.choice([[F_ERR, E[r.choice(["ENOSPC", "EIO", "EDQUOT"])], 0], [F_PARTIAL, r.choice([0, 1, r.randint(0, 999), 999]), 0], [F_FULL, 0, 0], [F_DEAD, 0, 0]] + ([[F_SHORT, r.randint(0, 999), 0]] if not isnc(path) else []))
    if op == "close_w" and isnc(path): return None      # the NetCDF library ignores the result of close(); PyGRT cannot see it
    if op == "close_w": return r.choice([[F_ERR, E[r.choice(["EIO", "ENOSPC", "EDQUOT"])], 0], [F_LOSE, r.choice([0, r.randint(0, 999), 999]), E[r.choice(["EIO", "ENOSPC", "EDQUOT"])]]])
    if op == "mkdir": return r.choice([[F_ERR, E[r.choice(["ENOSPC", "EACCES", "EROFS", "EDQUOT", "EIO"])], 0], [F_FULL, 0, 0]])
    if op in ("opendir", "readdir"): return [F_ERR, E[r.choice(["EIO", "EACCES" if op == "opendir" else "EIO", "EMFILE" if op == "opendir" else "EIO", "ENOMEM"])], 0]
    if op in ("stat", "access"): return [F_ERR, E[r.choice(["EACCES", "EIO", "ENOMEM"])], 0]
    if op == "stdout": return r.choice([[F_ERR, E[r.choice(["EIO", "ENOSPC", "EPIPE"])], 0], [F_PARTIAL, r.randint(0, 999), 0], [F_FULL, 0, 0], [F_SHORT, r.randint(0, 999), 0]])
    if op in ("lib_w", "lib_r"): return [F_LIB, r.choice([E["EIO"], E["ENOSPC"] if op == "lib_w" else E["EIO"], -61]), int(r.random() < .3)]
    if op == "stdclose": return [F_ERR, E["EIO"], 0]
    if op in ("trunc", "fsync", "unlink", "rename"): return [F_ERR, E["EIO"], 0]
    return [F_ERR, E["EIO"], 0]

def fault_class(scn, q):
    """what was hit, for signatures: first fault that fired"""
    fi = q.rep["fault_info"] if q.rep else []
    if not fi: return "no-fault"
    m = re.match(r"^([a-z-]+)\((-?\d+)\)@op\d+ (\S+) (.*)$", fi[0])
    if not m: return fi[0]
    return "%s@%s:%s" % (m.group(1), m.group(3), pclass(scn, m.group(4)))

class Cache:
    """a small cache of preparations for replays and shrinking"""
    d = {}
    @classmethod
    def get(cls, scn, **kw):
        import json
        k = json.dumps([scn, sorted(kw.items())], sort_keys=True, default=str)
        if k not in cls.d:
            for p in cls.d.values(): p.close()
            cls.d = {k: Prep(scn, **kw)}
        return cls.d[k]
import atexit
@atexit.register
def _cl():
    for p in Cache.d.values(): p.close()
