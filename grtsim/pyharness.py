"""Runs calls of the Python API. Started with the project's Python; one forked child per job, jobs arrive as JSON lines."""
import sys, os, json, io, builtins, hashlib, warnings, traceback
warnings.simplefilter("ignore")
import numpy as np
import pygrt, obspy
from pygrt import utils, PyModel1D
import _posixsubprocess, subprocess

def digest(x):
    if x is None or isinstance(x, (bool, int, str)): return x
    if isinstance(x, float): return repr(x)
    if isinstance(x, bytes): return ["b", hashlib.sha1(x).hexdigest()]
    if isinstance(x, np.generic): return repr(x.item())
    if isinstance(x, np.ndarray): return ["a", str(x.dtype.kind), list(x.shape), hashlib.sha1(np.ascontiguousarray(x, dtype=x.dtype.newbyteorder("<")).tobytes()).hexdigest()]
    if isinstance(x, dict): return {str(k): digest(v) for k, v in sorted(x.items(), key=lambda t: str(t[0]))}
    if isinstance(x, obspy.Stream): return ["Stream"] + sorted(json.dumps([t.stats.channel, t.stats.npts, repr(t.stats.delta), digest(dict(t.stats.sac)), digest(t.data)], sort_keys=True) for t in x)
    if isinstance(x, (list, tuple)): return [digest(v) for v in x]
    return repr(x)

class Seam:
    """start-up failures of the child process and read failures of this process"""
    def __init__(self, f):
        self.f = f or {}; self.fired = 0; self.started = False; self.n = 0
    def __enter__(self):
        f = self.f; self.fe = subprocess._fork_exec; self.op = builtins.open
        def fork_exec(*a):
            if f.get("kind") == "fork": self.fired += 1; raise OSError(f["errno"], os.strerror(f["errno"]))
            r = self.fe(*a); self.started = True; return r
        def op(file, mode="r", *a, **k):
            if f.get("kind") == "open" and self.started and isinstance(file, (str, os.PathLike)) and "r" in mode and not str(file).startswith(("/proc", "/usr", "/opt")):
                self.n += 1
                if self.n - 1 == f["index"] or (f.get("all") and self.n > f["index"]): self.fired += 1; raise OSError(f["errno"], os.strerror(f["errno"]), str(file))
            return self.op(file, mode, *a, **k)
        subprocess._fork_exec = fork_exec; builtins.open = op; self.io = io.open; io.open = op
        return self
    def __exit__(self, *a): subprocess._fork_exec = self.fe; builtins.open = self.op; io.open = self.io

def one(c):
    os.environ["GRTSIM_CONF"] = c["conf"]; k = dict(c["kw"]); fn = c["fn"]; r = {}
    with Seam(c.get("py")) as s:
        try:
            if fn.startswith("PyModel1D."): m = PyModel1D(**c["init"]); v = getattr(m, fn.split(".")[1])(**k)
            else: v = getattr(utils, fn)(*c.get("args", []), **k)
            r["ok"] = True
        except BaseException as e: r["ok"] = False; r["exc"] = "%s: %s" % (type(e).__name__, str(e)[:300])
        r["fired"] = s.fired; r["started"] = s.started
    if r["ok"]: r["ret"] = digest(v)
    return r

def main():
    for line in sys.stdin:
        j = json.loads(line); pid = os.fork()
        if pid == 0:
            try:
                os.setsid(); os.chdir(j["cwd"]); fd = os.open(j["out"] + ".log", os.O_WRONLY | os.O_CREAT | os.O_TRUNC); os.dup2(fd, 1); os.dup2(fd, 2)
                import resource; resource.setrlimit(resource.RLIMIT_CPU, (60, 65))
                d = os.open("/dev/null", os.O_RDONLY); os.dup2(d, 0)
                r = [one(c) for c in j["calls"]]
                with open(j["out"], "w") as fp: json.dump(r, fp)
                os._exit(0)
            except BaseException: traceback.print_exc(); os._exit(3)
        _, st = os.waitpid(pid, 0)
        sys.stdout.write("%d\n" % st); sys.stdout.flush()
main()
