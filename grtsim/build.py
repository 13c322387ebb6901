"""Builds the simulated program from /repo's current working tree. Cached by content hash."""
import hashlib, os, shutil, subprocess, sys, glob, fcntl, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GRTSIM_REPO", "/repo")
CEXT = os.path.join(REPO, "pygrt", "C_extension")
CACHE = os.path.join(VERIF, ".build")
BASE = ["-std=gnu99", "-fPIC", "-w", "-g1", "-fopenmp", "-D_GNU_SOURCE", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0",
        '-DGRT_VERSION="vSIM"', '-DGRT_DATE="2026-01-01"', "-DGRT_SIM=1"]
VARIANT = {
    # plain: fault, crash, environment and multi-process simulation
    "plain": ["-O2"],
    # tsan: every memory access calls our runtime (preemption point + race detector); no TSan runtime is linked
    # automatic variables start from a fixed pattern / from zero
    "patt": ["-O2", "-ftrivial-auto-var-init=pattern"],
    "zero": ["-O2", "-ftrivial-auto-var-init=zero"],
    "tsan": ["-O1", "-fsanitize=thread", "-fno-builtin-memcpy", "-fno-builtin-memset", "-fno-builtin-memmove"],
}

class BuildError(Exception):
    pass

def _files():
    src = sorted(glob.glob(CEXT + "/src/**/*.c", recursive=True))
    dep = sorted(f for pat in ("/src/**/*", "/include/**/*") for f in glob.glob(CEXT + pat, recursive=True) if os.path.isfile(f))
    return src, dep

def tree_hash():
    h = hashlib.sha256()
    _, dep = _files()
    for f in dep + sorted(glob.glob(os.path.join(VERIF, "sim", "*"))) + [os.path.abspath(__file__)]:
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as fp: h.update(fp.read())
    return h.hexdigest()[:20]

_paths = {}
def build_path(variant):
    """path of a variant built earlier in this process tree (no re-hash)"""
    if variant not in _paths: _paths[variant] = build(variant)
    return _paths[variant]

def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))

def build(variant="plain"):
    """Return the path of the simulated program, building it if needed."""
    h = tree_hash()
    out = os.path.join(CACHE, "%s-%s" % (variant, h)); exe = os.path.join(out, "grt")
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            os.utime(out); return exe
        olds = sorted(glob.glob(os.path.join(CACHE, variant + "-*")), key=os.path.getmtime)
        for o in olds[:-3]:
            shutil.rmtree(o, ignore_errors=True)
        tmp = out + ".tmp"; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        src, _ = _files(); jobs = []; objs = []
        for s in src:
            o = os.path.join(tmp, os.path.relpath(s, CEXT).replace("/", "_")[:-2] + ".o"); objs.append(o)
            jobs.append(["gcc"] + BASE + VARIANT[variant] + ["-I" + CEXT + "/include", "-I" + os.path.dirname(s), "-c", s, "-o", o])
        shim = []
        for s in ("sched", "io"):
            o = os.path.join(tmp, "shim_%s.o" % s); shim.append(o)
            jobs.append(["gcc", "-O2", "-g1", "-w", "-fPIC", "-fno-strict-aliasing", "-U_FORTIFY_SOURCE", "-c", os.path.join(VERIF, "sim", s + ".c"), "-o", o])
        o = os.path.join(tmp, "libharness.o"); objs.append(o)
        jobs.append(["gcc"] + BASE + VARIANT[variant] + ["-c", os.path.join(VERIF, "sim", "libharness.c"), "-o", o])
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex: list(ex.map(_run, jobs))
        allo = os.path.join(tmp, "all.o")
        _run(["ld", "-r", "-o", allo] + objs)
        _run(["objcopy", "--redefine-syms=" + os.path.join(VERIF, "sim", "redefine.syms"), allo])
        _run(["gcc", "-rdynamic", "-no-pie", "-o", os.path.join(tmp, "grt"), allo] + shim + ["-lpthread", "-lfftw3", "-lfftw3f", "-lnetcdf", "-lm"])
        for f in objs + shim + [allo]: os.remove(f)
        shutil.rmtree(out, ignore_errors=True); os.rename(tmp, out)
    return exe

if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain", "tsan", "patt", "zero"]:
        t = time.time(); print(build(v), "%.1fs" % (time.time() - t))
