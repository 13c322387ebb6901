"""Running one simulated process, scratch directories, snapshots, comparison."""
import os, struct, subprocess, shutil, hashlib, tempfile, resource, re, json, signal, math, errno
import build as B

VERIF = B.VERIF
SCRATCH_BASE = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 2 << 30 else "/tmp"

OPS = "open_r open_w read write close_r close_w mkdir opendir readdir stat access stdout trunc unlink rename fsync seek stdclose lib_w lib_r".split()
FK = "none err short partial-enospc full close-lose crash torn dead-file eintr library-call".split()
F_ERR, F_SHORT, F_PARTIAL, F_FULL, F_LOSE, F_CRASH, F_TORN, F_DEAD, F_EINTR, F_LIB = range(1, 11)
U = [("magic", 1), ("steps", 1), ("switches", 1), ("regions", 1), ("iters", 1), ("ops", 1), ("allocs", 1), ("races", 1),
     ("race_pc1", 1), ("race_pc2", 1), ("race_addr", 1), ("race_w1", 1), ("race_w2", 1), ("deadlock", 1), ("steplimit", 1), ("escapes", 1),
     ("faults_fired", len(FK)), ("alloc_faults_fired", 1), ("opcount", len(OPS)), ("sched_hash", 1), ("clock_reads", 1), ("clock_us", 1),
     ("exited", 1), ("bytes_written", 1), ("maxthreads", 1), ("stdout_bytes", 1), ("crit_entries", 1), ("peer_wait", 1), ("dir_scans", 1)]
NU = sum(n for _, n in U)

def parse_report(path):
    try:
        b = open(path, "rb").read()
    except OSError:
        return None
    if len(b) < NU * 8: return None
    v = struct.unpack("<%dQ" % NU, b[:NU * 8]); r = {}; i = 0
    for k, n in U:
        r[k] = v[i] if n == 1 else list(v[i:i + n]); i += n
    o = NU * 8
    r["escape_path"] = b[o:o + 256].split(b"\0")[0].decode("utf-8", "replace"); o += 256
    nfi = struct.unpack("<Q", b[o + 8 * 160:o + 8 * 160 + 8])[0]
    r["fault_info"] = [b[o + i * 160:o + (i + 1) * 160].split(b"\0")[0].decode("utf-8", "replace") for i in range(min(8, nfi))]
    if r["magic"] != 0x47525453494d3031: return None
    return r

class Scratch:
    """A directory below the scratch base, removed on exit."""
    def __init__(self, tag="g"):
        self.path = tempfile.mkdtemp(prefix="grtsim-%s-" % tag, dir=SCRATCH_BASE)
    def __enter__(self): return self.path
    def __exit__(self, *a): rmtree(self.path)

def rmtree(p):
    assert os.path.realpath(p).startswith((SCRATCH_BASE + "/grtsim-", "/tmp/grtsim-")), p
    shutil.rmtree(p, ignore_errors=True)

class Run:
    __slots__ = ("rc", "out", "err", "rep", "ops", "libops", "hang", "argv", "conf")
    def ok(self): return self.rc == 0

def write_conf(path, conf):
    L = []
    for k, v in conf.items():
        if k == "faults":
            for f in v: L.append("fault=%d %d %d %d" % tuple(f))
        elif v is not None: L.append("%s=%s" % (k, v))
    with open(path, "w") as fp: fp.write("\n".join(L) + "\n")

CPU_LIMIT = 150
def _limits(cpu):
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5)); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))

ENV = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "HOME": "/nonexistent"}
DEFAULT = dict(seed=1, nthreads=0, nprocs=1, policy=3, mean=0, race=0, garbage=-1, clock=0, maxsteps=2000000000, maxops=400000)

def sim(exe, argv, cwd, aux, conf=None, trace=False, tag="r", root=None, env=None, stdin=None):
    """One simulated process. `aux` is a directory outside cwd for configuration and reports."""
    c = dict(DEFAULT); c.update(conf or {}); c["root"] = root or cwd; c["report"] = os.path.join(aux, tag + ".rep")
    if trace: c["optrace"] = os.path.join(aux, tag + ".ops")
    cf = os.path.join(aux, tag + ".conf"); write_conf(cf, c)
    e = dict(ENV); e["GRTSIM_CONF"] = cf
    if env: e.update(env)
    r = Run(); r.argv = list(argv); r.conf = c; r.hang = False; r.ops = None
    so, se = os.path.join(aux, tag + ".out"), os.path.join(aux, tag + ".err")
    with open(so, "wb") as fo, open(se, "wb") as fe:
        p = subprocess.Popen([exe] + list(argv), cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, preexec_fn=lambda: _limits(c.get("cpu", CPU_LIMIT)), start_new_session=True)
        try:
            p.wait(900)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait(); r.hang = True
    r.rc = p.returncode
    if r.rc == -signal.SIGXCPU: r.hang = True
    r.out = open(so, "rb").read(); r.err = open(se, "rb").read(); r.rep = parse_report(c["report"])
    if trace:
        r.ops = []; r.libops = []
        try:
            with open(c["optrace"], "rb") as fp:
                for l in fp.read().decode("utf-8", "replace").splitlines():
                    a = l.split(" ", 3)
                    if len(a) == 4: (r.libops if a[1].startswith("lib_") else r.ops).append((int(a[0]), a[1], int(a[2]), a[3]))
        except OSError: pass
    return r

# ------------------------------------------------------------------ trees
def tree(root):
    """relative path -> bytes (files), None (directories), ('L', target) (links)"""
    t = {}
    for d, ds, fs in os.walk(root):
        rd = os.path.relpath(d, root)
        for x in ds:
            p = os.path.normpath(os.path.join(rd, x)); f = os.path.join(d, x)
            t[p] = ("L", os.readlink(f)) if os.path.islink(f) else None
        for x in fs:
            p = os.path.normpath(os.path.join(rd, x)); f = os.path.join(d, x)
            if os.path.islink(f): t[p] = ("L", os.readlink(f))
            elif os.path.isfile(f):
                with open(f, "rb") as fp: t[p] = fp.read()
            else: t[p] = ("S", "special")
    return t

def put(root, files):
    for p, s in files.items():
        f = os.path.join(root, p); os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "wb") as fp: fp.write(s.encode() if isinstance(s, str) else s)

def copytree(a, b):
    shutil.copytree(a, b, symlinks=True)

def mat(root, t):
    """materialise a tree dict"""
    os.makedirs(root, exist_ok=True)
    for p in sorted(t):
        v = t[p]; f = os.path.join(root, p)
        if v is None: os.makedirs(f, exist_ok=True)
        elif isinstance(v, tuple): os.symlink(v[1], f)
        else:
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "wb") as fp: fp.write(v)

def under(p, roots):
    return any(p == r or p.startswith(r.rstrip("/") + "/") for r in roots)

def tdiff(a, b):
    """paths that differ between two trees: list of (path, kind)"""
    out = []
    for p in sorted(set(a) | set(b)):
        if p not in b: out.append((p, "missing"))
        elif p not in a: out.append((p, "unexpected"))
        elif a[p] != b[p]: out.append((p, "differs"))
    return out

# ------------------------------------------------------------------ stdout
ANSI = re.compile(rb"\x1b\[[0-9;]*[A-Za-z]")
def logsplit(out):
    """split a log stream into its messages: (messages, progress percentages in order)"""
    s = ANSI.sub(b"\n", out).replace(b"\r", b"\n")
    msgs, pct = [], []
    for l in s.split(b"\n"):
        l = l.strip()
        if not l: continue
        if re.match(rb"^(Runtime|Time|Elapsed)", l): continue
        m = re.search(rb"\[[=>\s]*\]\s*(\d+)\s*%", l)
        if m: pct.append(int(m.group(1))); continue
        msgs.append(l)
    return msgs, pct

# ------------------------------------------------------------------ NetCDF classic
class NCError(Exception): pass
def nc_parse(b):
    """Parse a NetCDF classic (CDF-1/2/5) file -> (dims, gatts, vars{name: (dimnames, atts, type, rawbytes)})"""
    if b[:3] != b"CDF" or len(b) < 8: raise NCError("magic")
    ver = b[3]; o = 4
    if ver not in (1, 2, 5): raise NCError("version")
    def u4():
        nonlocal o
        v = struct.unpack_from(">I", b, o)[0]; o += 4; return v
    def cnt():
        nonlocal o
        if ver == 5: v = struct.unpack_from(">Q", b, o)[0]; o += 8; return v
        return u4()
    def name():
        nonlocal o
        n = cnt(); s = b[o:o + n]; o += (n + 3) // 4 * 4; return s.decode()
    SZ = {1: 1, 2: 1, 3: 2, 4: 4, 5: 4, 6: 8, 7: 1, 8: 2, 9: 4, 10: 8, 11: 8}
    def atts():
        nonlocal o
        u4(); n = cnt(); A = {}
        for _ in range(n):
            k = name(); t = u4(); c = cnt(); A[k] = (t, b[o:o + c * SZ[t]]); o += (c * SZ[t] + 3) // 4 * 4
        return A
    try:
        nrec = cnt()
        u4(); n = cnt(); dims = []
        for _ in range(n):
            k = name(); dims.append((k, cnt()))
        g = atts()
        u4(); n = cnt(); V = {}
        for _ in range(n):
            k = name(); nd = cnt(); ids = [cnt() for _ in range(nd)]; A = atts(); t = u4(); vs = cnt()
            if ver == 1: beg = u4()
            else: beg = struct.unpack_from(">Q", b, o)[0]; o += 8
            N = 1
            for i in ids: N *= dims[i][1] if dims[i][1] else nrec
            raw = b[beg:beg + N * SZ[t]]
            if len(raw) != N * SZ[t]: raise NCError("truncated variable " + k)
            V[k] = ([dims[i][0] for i in ids], A, t, raw)
    except (struct.error, KeyError, IndexError) as e:
        raise NCError(str(e))
    return dims, g, V

def nc_vals(v):
    t, raw = v[2], v[3]; F = {3: "h", 4: "i", 5: "f", 6: "d"}[t]; return struct.unpack(">%d%s" % (len(raw) // struct.calcsize(F), F), raw)

def nc_close(a, b, tol):
    """Compare two NetCDF files up to `tol` relative to each variable's scale. Returns None or a description."""
    try: A = nc_parse(a)
    except NCError as e: return "reference unreadable: %s" % e
    try: Bq = nc_parse(b)
    except NCError as e: return "unreadable: %s" % e
    if A[0] != Bq[0]: return "dimensions differ"
    if nattr(A[1]) != nattr(Bq[1]): return "global attributes differ"
    if list(A[2]) != list(Bq[2]): return "variables differ"
    for k in A[2]:
        x, y = A[2][k], Bq[2][k]
        if x[:3] != y[:3]: return "variable %s: layout differs" % k
        if x[3] == y[3]: continue
        if x[2] not in (5, 6): return "variable %s differs" % k
        X, Y = nc_vals(x), nc_vals(y); s = max((abs(q) for q in X if math.isfinite(q)), default=0.0)
        for i, (p, q) in enumerate(zip(X, Y)):
            if p == q or (p != p and q != q): continue
            if not (math.isfinite(p) and math.isfinite(q)) or abs(p - q) > tol * max(s, 1e-300): return "variable %s[%d]: %r vs %r (scale %g)" % (k, i, p, q, s)
    return None

def nattr(d):
    """global attributes with the -P option of the recorded command removed"""
    return {k: (v if k != "command" else re.sub(rb" -P[0-9]+", b"", v[1])) for k, v in d.items()}

def addr(exe, off):
    try:
        r = subprocess.run(["addr2line", "-f", "-s", "-e", exe, hex(off + 0x400000)], capture_output=True, text=True, timeout=20).stdout.split("\n")
        return "%s (%s)" % (r[0], r[1])
    except Exception: return hex(off)
