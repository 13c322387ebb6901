import sys, random, collections, time, os
import core, build, work
from multiprocessing import Pool
exe = build.build("plain")
def resolve(argv, w):
    out = []
    for a in argv:
        if a.startswith("@stats:"):
            _, pat, k = a.split(":"); fs = sorted(p for p, v in core.tree(w).items() if isinstance(v, bytes) and pat in p and not p.endswith("command") and "/" in p)
            a = fs[int(k) % len(fs)] if fs else "nostats"
        out.append(a)
    return out
def one(x):
    name, seed = x
    r = random.Random("%s/%d" % (name, seed)); s = work.ALL[name](r)
    with core.Scratch() as d:
        w, aux = d + "/w", d + "/x"; os.mkdir(w); os.mkdir(aux); core.put(w, s.files)
        for a in s.setup:
            q = core.sim(exe, a, w, aux)
            if q.rc: return name, "setup", a, q.err[-300:], 0, {}
        t = time.time(); q = core.sim(exe, resolve(s.cmd, w), w, aux); t = time.time() - t
        if q.rc: return name, "cmd", s.cmd, q.err[-300:], t, q.rep
        return name, "ok", s.cmd, len(q.out), t, q.rep
if __name__ == "__main__":
    n = int(sys.argv[1]); names = sys.argv[2:] or list(work.ALL)
    with Pool(int(os.environ.get("GRTSIM_JOBS", 8))) as p:
        R = p.map(one, [(k, i) for k in names for i in range(n)], chunksize=1)
    c = collections.Counter((x[0], x[1]) for x in R); tt = collections.defaultdict(list)
    for x in R:
        tt[x[0]].append((x[4], x[5].get("ops") if x[5] else 0, x[5].get("allocs") if x[5] else 0))
        if x[1] != "ok": print(x[:4])
    for k in names: print(k, {q: c[(k, q)] for q in ("ok", "setup", "cmd")}, "t avg %.3f max %.3f ops max %d allocs max %d" % (sum(y[0] for y in tt[k]) / n, max(y[0] for y in tt[k]), max(y[1] for y in tt[k]), max(y[2] for y in tt[k])))
