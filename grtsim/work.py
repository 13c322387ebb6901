"""Seeded workload generator: small runs of every module, with the chain of commands that prepares their inputs."""
import os, random
MD = os.path.join(os.path.dirname(os.path.abspath(__file__)), "models")
MODELS = {n: open(os.path.join(MD, n)).read() for n in ("milrow", "thin1", "seafloor", "seafloor2", "killari", "ice")}

def fmt(x): return ("%.6g" % x)

class S(dict):
    """scenario: files, setup (list of argv), cmd (argv), outs (declared output paths), stdout (data on stdout), inplace, tol, module"""
    __getattr__ = dict.__getitem__

def mk(module, files, setup, cmd, outs, stdout=False, inplace=False, tol=None, **kw):
    return S(module=module, files=files, setup=setup, cmd=cmd, outs=outs, stdout=stdout, inplace=inplace, tol=tol, **kw)

# ------------------------------------------------------------------ models
def rand_model(r, deep=False):
    n = r.randint(1, 5); L = []; vs = r.uniform(0.8, 2.5); top = r.random() < 0.3; z = 0.0; q = r.random() < 0.4; vmax = 0
    if deep: n = max(n, 2)
    for i in range(n):
        h = r.choice([0.2, 0.3, 0.5, 0.8, 1.0, 1.5, 2.0]) if i < n - 1 else 0.0
        vs = vs * r.uniform(1.02, 1.25) if r.random() < 0.85 else vs * r.uniform(0.9, 0.98)
        vp = vs * r.uniform(1.6, 1.95); rho = 1.7 + 0.2 * vp
        first = z if top else (h if h else 0.0)
        if n == 1 and not top: first = 0.0
        if not top and i == 0 and first == 0.0 and n > 1: first = 0.5
        if deep and i == n - 1: vs = max(vs, 1.15 * vmax); vp = vs * 1.75; rho = 1.7 + 0.2 * vp
        vmax = max(vs, vmax)
        L.append(" ".join([fmt(first), fmt(vp), fmt(vs), fmt(rho)] + ([str(r.choice([100, 300, 600])), str(r.choice([50, 150, 300]))] if q else [])))
        z += h
    s = "\n".join(L)
    if r.random() < 0.3: s = "# H Vp Vs Rho\n" + s
    return s + ("\n" if r.random() < 0.8 else "")

def pick_model(r, files, water=True, deep=False):
    k = r.random()
    if k < 0.45: n = "milrow"
    elif k < 0.75:
        n = r.choice(["mod", "m_x1", "crust2_1d", "a.mod"]); files[n] = rand_model(r, deep); return n
    else: n = r.choice(["thin1", "killari"] + (["seafloor", "seafloor2", "ice"] if water else []))
    files[n] = MODELS[n]; return n

def depths(r, name):
    if name == "thin1": z = [0.0, 0.005, 0.012, 0.02, 0.033]
    elif name.startswith("seafloor"): z = [1.2, 2.0, 3.5, 4.2, 6.5] + ([0.5] if r.random() < .2 else [])
    elif name == "ice": z = [0.0, 0.4, 1.5, 2.2, 3.0] + ([1.0] if r.random() < .2 else [])
    else: z = [0.0, 0.1, 0.35, 0.9, 1.3, 2.0, 2.4, 3.0]
    return z
def dists(r, name, k):
    z = [0.02, 0.05, 0.1, 0.2, 0.3] if name == "thin1" else [1, 2, 3.5, 5, 7.25, 8, 10, 12]
    return sorted(r.sample(z, k))
def lst(r, v, files, fn, opt):
    """a value list in one of the accepted forms"""
    if len(v) >= 2 and r.random() < 0.25:
        files[fn] = "\n".join(fmt(x) for x in v) + ("\n" if r.random() < 0.7 else ""); return opt + fn
    return opt + ",".join(fmt(x) for x in v)
def dd_opts(r, name, files, multi=0.3):
    z = depths(r, name)
    if r.random() < multi:
        a = sorted(r.sample(z, r.choice([1, 2]))); b = sorted(r.sample(z, r.choice([1, 2])))
        return [lst(r, a, files, "dsl", "-Ds"), lst(r, b, files, "drl", "-Dr")], a, b
    a, b = r.choice(z), r.choice(z)
    return ["-D%s/%s" % (fmt(a), fmt(b))], [a], [b]

def kopt(r, static=False):
    o = "-K+k%s" % r.choice(["3", "5", "8", "12"])
    if r.random() < 0.15: o += "+f"
    if not static and r.random() < 0.2: o += "+s1.3"
    if r.random() < 0.2: o += "+e1e-3"
    if not static and r.random() < 0.15: o += "+v1.1"
    return o
def bopt(r): return r.choice(["-BrF", "-BhR", "-BrH", "-BfR", "-Bh", "-BF"])
def copt(r): return r.choice(["-Cd", "-Cp", "-Cn"])
def lopt(r): return r.choice(["-L10", "-L15", "-L+l4+o6", "-L+a1e-2+o6", "-L8+l3+o3", "-L+a1e-1"])

# ------------------------------------------------------------------ green functions
def greenfn(r, big=False, out="GRN", stats=None, deriv=None, opts=True, long=0.0):
    """long: probability of records longer than the stdio block (narrow frequency band, so still cheap)"""
    files = {}; m = pick_model(r, files)
    D, a, b = dd_opts(r, m, files, 0.0 if stats else 0.25)
    nt = r.choice([6, 8, 11, 16] + ([24, 40] if big else [])); dt = r.choice([0.05, 0.1, 0.3]) if m != "thin1" else r.choice([0.01, 0.02])
    band = None
    if long and r.random() < long:
        nt = r.choice([1400, 1900, 2100, 3000, 4500]); f = r.choice([3, 10, 40]) / (nt * dt); band = "-H%s/%s" % (fmt(f), fmt(f + r.choice([1.5, 3.5]) / (nt * dt))); stats = False
    N = "-N%d/%s" % (nt, fmt(dt))
    if opts:
        if r.random() < 0.2: N += "+w%s" % r.choice(["0.5", "1.2"])
        if r.random() < 0.2: N += "+n%d" % r.choice([2, 3])
        if r.random() < 0.2: N += "+a"
        if r.random() < 0.1: N += "+f"
    R = dists(r, m, r.choice([1, 1, 2, 3]))
    cmd = ["greenfn", "-M" + m] + D + [N, lst(r, R, files, "rl", "-R"), "-O" + out, kopt(r)]
    if opts:
        if r.random() < 0.35: cmd.append(lopt(r))
        if r.random() < 0.3: cmd.append(copt(r))
        if r.random() < 0.15 and not band: cmd.append("-H%s/%s" % (r.choice(["-1", "0.3"]), r.choice(["-1", fmt(0.35 / dt)])))
        if r.random() < 0.2: cmd.append(r.choice(["-E0.5", "-E-0.2/6", "-Ep-0.3"]))
        if r.random() < 0.2: cmd.append("-G" + r.choice(["e", "v", "h", "s", "ev", "hs", "evh"]))
        if r.random() < 0.2: cmd.append(bopt(r))
    if band: cmd.append(band)
    if stats or (stats is None and r.random() < 0.3): cmd.append("-S" if r.random() < 0.6 else "-S" + ",".join(str(i) for i in sorted(r.sample(range(nt // 2 + 1), 2))))
    if deriv or (deriv is None and r.random() < 0.4): cmd.append("-e")
    if r.random() < 0.25: cmd.append("-s")
    return mk("greenfn", files, [], cmd, [out] + ([out + "_grtstats"] if any(c.startswith("-S") for c in cmd) else []), src=a, rcv=b, dist=R, model=m, nt=nt)

def kernel(r):
    files = {}; m = pick_model(r, files); z = depths(r, m)
    f = r.choice(["-F0/4/1", "-F0.5/3/0.5", "-F1/6/1", "-F0/8/2+w10"]) if m != "thin1" else r.choice(["-F0/20/5", "-F2/10/2"])
    c = r.choice(["-C0.3", "-C0.5/4/0.4", "-C0.2", "-C1/5/0.25"]) if m != "thin1" else r.choice(["-C0.1", "-C0.1/1.5/0.1"])
    cmd = ["kernel", "-M" + m, "-D%s/%s" % (fmt(r.choice(z)), fmt(r.choice(z))), f, c, "-OKER"]
    if r.random() < 0.4: cmd.append("-e")
    if r.random() < 0.25: cmd.append(bopt(r))
    return mk("kernel", files, [], cmd, ["KER"], model=m)

# ------------------------------------------------------------------ modal
def eig_argv(r, m, wave, out, equi=True):
    if m == "thin1": f = r.choice(["-F2/20/6", "-F5/25/5"])
    else: f = r.choice(["-F0/1/0.25", "-F0.2/0.8/0.2", "-F0/1.5/0.5"])
    if not equi and r.random() < 0.4: f = r.choice(["-F0.6", "-F1/3/0.5+p", "-F2+p"]) if m != "thin1" else "-F10"
    n = r.choice(["-N", "-N0", "-N1", "-N2", None])
    a = ["eigenv", "-M" + m, "-S" + wave, f, "-C" + out]
    if n: a.append(n)
    if r.random() < 0.15: a.append(r.choice(["-T+t2.5", "-T+c6+r4", "-T+t3+v6", "-T+u2", "-T+u1.7"]))
    return a
def eigenv(r):
    files = {}; m = pick_model(r, files, deep=True, water=r.random() < 0.5); w = r.choice("RRL")
    a = eig_argv(r, m, w, "ph.nc", equi=False)
    if r.random() < 0.2: a.append("-s")
    return mk("eigenv", files, [], a, ["ph.nc"], model=m)
def eigenv_x(r):
    files = {}; m = pick_model(r, files, deep=True, water=False); w = r.choice("RL")
    x = "-X%s" % (r.choice(["0.5", "1", "2"]) if m != "thin1" else r.choice(["10", "20"]))
    if r.random() < 0.3: x += "+c%s" % ("1/4" if m != "thin1" else "0.2/0.6")
    if r.random() < 0.4: x += "+i%d" % r.choice([0, 1, 1, 2])
    return mk("eigenv-X", files, [], ["eigenv", "-M" + m, "-S" + w, x], [], stdout=True, model=m)
def eigenfn(r):
    files = {}; m = pick_model(r, files, deep=True, water=r.random() < 0.3); w = r.choice("RRL")
    a = ["eigenfn", "-Cph.nc"]; outs = []
    if r.random() < 0.3: a.append(r.choice(["-F0.3/1", "-F0.5", "-F0.25/1/0.25", "-F1/4+p", "-F2+p"]) if m != "thin1" else r.choice(["-F5/20", "-F8"]))
    a += r.choice([["-N"], ["-N"], ["-N0"], ["-N0/1"], ["-N0/2/2"], ["-N1"], []])
    if r.random() < 0.6: a.append("-Weg.nc" + (r.choice(["+z0/3/1", "+z0.5", "+z0/2/0.5"]) if m != "thin1" else "+z0/0.04/0.01") * (r.random() < 0.7)); outs.append("eg.nc")
    if r.random() < 0.6: a.append("-Ugr.nc"); outs.append("gr.nc")
    if r.random() < 0.6 or not outs:
        k = "-K"
        if r.random() < 0.6: k += "+ccs.nc"; outs.append("cs.nc")
        if r.random() < 0.4: k += "+uus.nc"; outs.append("us.nc")
        if r.random() < 0.4 or k == "-K": k += "+xei.nc"; outs.append("ei.nc")
        if r.random() < 0.3: k += "+z%s" % ("0.5" if m != "thin1" else "0.01")
        a.append(k)
    return mk("eigenfn", files, [eig_argv(r, m, w, "ph.nc")], a, outs, model=m)
def modsum(r, out="GRNM"):
    files = {}; m = pick_model(r, files, deep=True, water=r.random() < 0.3); w = r.choice("RRL")
    D, a, b = dd_opts(r, m, files, 0.25); R = dists(r, m, r.choice([1, 1, 2]))
    e = eig_argv(r, m, w, "ph.nc"); e[3] = (r.choice(["-F0/1/0.25", "-F0/1.5/0.5", "-F0/1/0.2"]) if m != "thin1" else r.choice(["-F0/20/5", "-F0/25/5"]))
    c = ["modsum", "-Cph.nc"] + D + [lst(r, R, files, "rl", "-R"), "-O" + out] + r.choice([["-N"], ["-N"], ["-N0"], ["-N0/1"], []])
    if r.random() < 0.2: c.append(r.choice(["-F0.2/0.8", "-F0/0.6", "-F0.3/2"]) if m != "thin1" else "-F5/20")
    if r.random() < 0.5: c.append("-e")
    if r.random() < 0.4: c.append("-W%d" % r.choice([2, 3]))
    if r.random() < 0.2: c.append("-G" + r.choice(["e", "s", "vh"]))
    if r.random() < 0.2: c.append(r.choice(["-E1", "-Ep-1"]))
    return mk("modsum", files, [e], c, [out], src=a, rcv=b, dist=R, model=m)

# ------------------------------------------------------------------ syn and tensors
def src_opt(r, dyn=True):
    s = r.choice(["-S1e20", "-Su1e12", "-S1e24"])
    k = r.random()
    if k < 0.25: return [s]
    if k < 0.45: return [s, "-M%d/%d/%d" % (r.randint(0, 359), r.randint(1, 90), r.randint(-179, 180))]
    if k < 0.6: return [s, "-M%d/%d" % (r.randint(0, 359), r.randint(1, 90))]
    if k < 0.8: return [s, "-T" + "/".join(fmt(r.uniform(-3, 3)) for _ in range(6))]
    return [s.replace("u", ""), "-F" + "/".join(fmt(r.uniform(-3, 3)) for _ in range(3))]
def syn(r, deriv=None, out="syn", long=0.0):
    e = r.random() < 0.4 if deriv is None else deriv
    g = greenfn(r, deriv=e, opts=r.random() < 0.5, stats=False, long=long)
    g["cmd"] = [c for c in g.cmd if not c.startswith("-G")]
    files = g.files; setup = [g.cmd]
    ds, dr, dist = r.choice(g.src), r.choice(g.rcv), r.choice(g.dist)
    c = ["syn"]
    if r.random() < 0.5:
        c.append("-GGRN/%s_%s_%s_%s" % (g.model, fmt(ds), fmt(dr), fmt(dist)))
    else: c += ["-GGRN"] + (["-Ds" + fmt(ds)] if len(g.src) > 1 or r.random() < .3 else []) + (["-Dr" + fmt(dr)] if len(g.rcv) > 1 or r.random() < .3 else []) + (["-R" + fmt(dist)] if len(g.dist) > 1 or r.random() < .3 else [])
    c += ["-A%d" % r.randint(0, 359)] + src_opt(r) + ["-O" + out]
    if r.random() < 0.5:
        k = r.random()
        if k < .25: c.append("-Dp/0.4")
        elif k < .5: c.append("-Dt/0.1/0.2/0.4")
        elif k < .65: c.append("-Dr/2")
        else:
            files["tf"] = "# amp\n" * (r.random() < .5) + "\n".join(fmt(x) for x in [0] + [r.uniform(0, 1) for _ in range(r.randint(3, 9))] + [0]) + "\n"; c.append("-D0/tf")
    if r.random() < 0.15: c.append("-I1")
    if r.random() < 0.15: c.append("-J1")
    if r.random() < 0.4: c.append("-N")
    if e: c.append("-e")
    if r.random() < 0.2: c.append("-s")
    return mk("syn", files, setup, c, [out], model=g.model)
def tensor(r, long=0.0):
    s = syn(r, deriv=True, long=long)
    t = r.choice(["strain", "stress", "rotation"])
    return mk(t, s.files, s.setup + [s.cmd], [t, "syn"], ["syn"], model=s.model)

# ------------------------------------------------------------------ static
def grid(r): return ["-X%s" % r.choice(["-2/2/1", "-1/2/1.5", "0.5/2/0.5", "-3/3/2"]), "-Y%s" % r.choice(["-1/1/1", "-2/2/2", "0/3/1.5"])]
def st_argv(r, m, files, out="stgrn.nc", multi=None, rlib=None, deriv=None, reach=8):
    z = depths(r, m)
    c = ["static", "greenfn", "-M" + m]
    if multi: c += ["-Ds" + ",".join(fmt(x) for x in multi[0]), "-Dr" + ",".join(fmt(x) for x in multi[1])]
    else: c += ["-D%s/%s" % (fmt(r.choice(z[1:])), fmt(r.choice(z)))]
    if rlib or (rlib is None and r.random() < 0.6): c.append("-R0/%d/%s" % (reach, r.choice(["2", "1", "4"])) if not (rlib is None and r.random() < .3) else "-R0.5,2,3,5")
    else: c += grid(r)
    c += ["-O" + out, kopt(r, True)]
    if deriv or (deriv is None and r.random() < 0.5): c.append("-e")
    return c
def static_greenfn(r, stats=False):
    files = {}; m = pick_model(r, files, water=False); z = depths(r, m)
    multi = ([sorted(r.sample(z, 2)), sorted(r.sample(z, r.choice([1, 2])))] if r.random() < 0.3 and not stats else None)
    c = st_argv(r, m, files, multi=multi); outs = ["stgrn.nc"]
    if any(x.startswith("-R0/") for x in c):
        if r.random() < .2: c.append(r.choice(["-L10", "-L15"]))
    elif r.random() < 0.2 and any(x.startswith("-R") for x in c): c.append(lopt(r))
    if r.random() < 0.2: c.append(copt(r))
    if r.random() < 0.2: c.append(bopt(r))
    if r.random() < 0.25 and not multi: c.append("-S"); outs.append("stgrtstats")
    return mk("static_greenfn", files, [], c, outs, model=m)
def rcv_file(r, depth=0.0):
    six = r.random() < 0.4; L = ["# north east depth"] if r.random() < .6 else []
    for _ in range(r.randint(1, 6)):
        L.append("%s %s %s" % (fmt(round(r.uniform(-2, 2), 2)), fmt(round(r.uniform(-2, 2), 2)), fmt(depth)) + (" %d %d %d" % (r.randint(0, 359), r.randint(1, 89), r.randint(-90, 90)) if six else ""))
    return "\n".join(L) + ("\n" if r.random() < .8 else "")
def static_syn(r, deriv=None, extra_setup=None):
    files = {}; m = r.choice(["milrow", "mod"]); files[m] = MODELS["milrow"] if m == "milrow" else rand_model(r)
    e = r.random() < .5 if deriv is None else deriv
    md = r.random() < .4
    if md:
        dr = r.choice([[0.0], [0.0, 0.5]]); g = st_argv(r, m, files, multi=([1.0, 2.0, 3.0], dr), rlib=True, deriv=e)
        c = ["static", "syn", "-Gstgrn.nc", "-Ds" + r.choice(["1", "1.5", "2.25", "3"])]
        if r.random() < .35 : files["pts"] = rcv_file(r, 0.0 if len(dr) == 1 else r.choice([0, 0.25])); c.append("-Qpts")
        else: c += (["-Dr" + r.choice(["0", "0.25", "0.5"])] if len(dr) > 1 else []) + grid(r)
    else:
        g = ["static", "greenfn", "-M" + m, "-D2/0", "-Ostgrn.nc", kopt(r, True)] + (["-R0/6/%s" % r.choice(["2", "1"])] if r.random() < .6 else grid(r)) + (["-e"] if e else [])
        c = ["static", "syn", "-Gstgrn.nc"]
        if any(x.startswith("-R") for x in g) and r.random() < .8:
            if r.random() < .35: files["pts"] = rcv_file(r); c.append("-Qpts")
            else: c += grid(r)
    c += src_opt(r) + ["-Ostsyn.nc"] + (["-N"] if r.random() < .4 else []) + (["-e"] if e else [])
    return mk("static_syn", files, [g], c, ["stsyn.nc"], model=m)
HDR = "  #   X-start    Y-start     X-fin     Y-fin    Kode  shear(m)  reverse(m)  dip angle   top(km)   bot(km)\nxxx xxxxxxxxxx xxxxxxxxxx xxxxxxxxxx xxxxxxxxxx xxx  xxxxxxxxxx xxxxxxxxxx xxxxxxxxxx xxxxxxxxxx xxxxxxxxxx\n"
def fault_file(r, n=None, top=1.0, bot=3.0, kodes=(100, 200, 300, 400, 500)):
    L = []
    for i in range(n or r.randint(1, 4)):
        k = r.choice(kodes); x, y = r.uniform(-2, 1), r.uniform(-2, 1); t = r.uniform(top, top + .5); b = r.uniform(bot - .6, bot)
        s1, s2 = (r.uniform(-.5, .5), r.uniform(-.5, .5)) if k < 400 else (r.uniform(-5, 5) * 1e6, r.uniform(-5, 5) * 1e6)
        q = r.random(); s1 = 0.0 if q < .08 else s1; s2 = 0.0 if .92 < q else s2
        L.append("%3d %10.4f %10.4f %10.4f %10.4f %3d %12.4e %12.4e %8.2f %9.4f %9.4f" % (i + 1, x, y, x + r.uniform(.5, 2.2) * r.choice([1, 1, -1]), y + r.uniform(.2, 2) * r.choice([1, 1, -1]), k, s1, s2, r.choice([90.0] + [r.uniform(25, 90)] * 4), t, b))
    return HDR + "\n".join(L) + "\n"
def static_ff(r, deriv=None):
    files = {}; m = r.choice(["milrow", "mod"]); files[m] = MODELS["milrow"] if m == "milrow" else rand_model(r)
    e = r.random() < .5 if deriv is None else deriv
    g = ["static", "greenfn", "-M" + m, "-Ds1,2,3", "-Dr0", "-R0/10/%s" % r.choice(["1", "2.5"]), "-Ostgrn.nc", kopt(r, True)] + (["-e"] if e else [])
    if r.random() < .2:
        files["cf.inr"] = HDR + "  1    -2.0000    -1.0000     2.0000     2.0000   100  %8.2f  0.5000     55.00       1.0000     3.0000\n" % r.uniform(-90, 90); cf = "cf.inr"
    else: files["cf.inp"] = fault_file(r); cf = "cf.inp"
    c = ["static", "syn", "-Gstgrn.nc", "-C%s+i%s" % (cf, r.choice(["1/1", "0.7/0.5", "1/0.6"]))]
    if r.random() < .35: files["pts"] = rcv_file(r); c.append("-Qpts")
    else: c += grid(r)
    c += ["-Ostsyn.nc"] + (["-N"] if r.random() < .4 else []) + (["-e"] if e else [])
    return mk("static_ff", files, [g], c, ["stsyn.nc"], tol=1e-9, model=m)
def static_tensor(r):
    k = r.random()
    s = static_syn(r, True) if k < .5 else static_ff(r, True) if k < .75 else okada(r, True)
    t = r.choice(["strain", "stress", "rotation"])
    setup = s.setup + [s.cmd]
    if r.random() < .3: setup.append(["static", r.choice([x for x in ("strain", "stress", "rotation") if x != t]), s.outs[0]])
    return mk("static_" + t, s.files, setup, ["static", t, s.outs[0]], [s.outs[0]], inplace=True, model=s.model)
def okada(r, deriv=None):
    files = {}; e = r.random() < .5 if deriv is None else deriv
    c = ["okada", "-I6/3.464/2.7", "-Ook.nc"]; ff = r.random() < .5
    if ff:
        files["cf.inp"] = fault_file(r, top=.5, bot=6); c.append("-Ccf.inp")
    else:
        c += [r.choice(["-Su1e12", "-S1e20"]), "-Ds" + r.choice(["2", "5", "10.5"])]
        k = r.random()
        if k < .4: c.append("-M%d/%d/%d" % (r.randint(0, 359), r.randint(1, 90), r.randint(-90, 90)))
        elif k < .7: c.append("-M%d/%d" % (r.randint(0, 359), r.randint(1, 90)))
    if r.random() < .35: files["pts"] = rcv_file(r, r.choice([0, .5])); c.append("-Qpts")
    else: c += ["-Dr" + r.choice(["0", "0.5"])] + grid(r)
    if r.random() < .4: c.append("-N")
    if e: c.append("-e")
    return mk("okada", files, [], c, ["ok.nc"], model="okada")

# ------------------------------------------------------------------ tables
def travt(r):
    files = {}; m = pick_model(r, files); z = depths(r, m)
    R = dists(r, m, r.randint(1, 4))
    return mk("travt", files, [], ["travt", "-M" + m, "-D%s/%s" % (fmt(r.choice(z)), fmt(r.choice(z))), lst(r, R, files, "rl", "-R")], [], stdout=True, model=m)
def lamb1(r):
    return mk("lamb1", {}, [], ["lamb1", "-P" + r.choice(["0.25", "0.3", "0.12", "0.4"]), "-T%s" % r.choice(["0/2/0.1", "0.5/1.5/0.05", "0/3/0.02"]), "-A%d" % r.randint(0, 359)], [], stdout=True, model="")
def sac2asc(r, long=0.0):
    g = greenfn(r, opts=False, stats=False, long=long); d = "GRN/%s_%s_%s_%s" % (g.model, fmt(r.choice(g.src)), fmt(r.choice(g.rcv)), fmt(r.choice(g.dist)))
    return mk("sac2asc", g.files, [g.cmd], ["sac2asc", d + "/" + r.choice(["VFZ", "EXR", "SST", "DDZ"]) + ".sac"], [], stdout=True, model=g.model)
def disp2asc(r):
    files = {}; m = pick_model(r, files, water=False, deep=True); w = r.choice("RL"); e = eig_argv(r, m, w, "ph.nc")
    if r.random() < .5: return mk("disp2asc", files, [e], ["disp2asc", "-Cph.nc", r.choice(["-N", "-N0"])], [], stdout=True, model=m)
    return mk("disp2asc", files, [e, ["eigenfn", "-Cph.nc", "-N", "-Ugr.nc"]], ["disp2asc", "-Ugr.nc", "-N"], [], stdout=True, model=m)
def ker2asc(r):
    """the statistics file is found after set-up: '@stats' is replaced by a seeded choice"""
    if r.random() < .5: s = greenfn(r, opts=r.random() < .5, stats=True); pat = "_grtstats"
    elif r.random() < .6: s = kernel(r); pat = "KER"
    else:
        s = static_greenfn(r, True); pat = "stgrtstats"
        if "-S" not in s.cmd: s.cmd.append("-S")
    return mk("ker2asc", s.files, [s.cmd], ["ker2asc", "@stats:%s:%d" % (pat, r.randint(0, 1000))], [], stdout=True, model=s.model)

greenfn_l = lambda r: greenfn(r, long=.35)
syn_l = lambda r: syn(r, long=.35)
tensor_l = lambda r: tensor(r, long=.35)
sac2asc_l = lambda r: sac2asc(r, long=.5)
def bigger(r, s):
    """the same scenario with products larger than the buffers of the NetCDF library"""
    g = ["-X-2/2/%s" % r.choice(["0.1", "0.12"]), "-Y-2/2/%s" % r.choice(["0.1", "0.09"])]
    def f(c):
        if c[0] == "eigenfn": return [a.split("+z")[0] + ("+z0/3/0.02" if s.model != "thin1" else "+z0/0.04/0.0002") if a.startswith("-W") else a for a in c]
        if c[:2] in (["static", "syn"], ["okada"] + c[1:2]): return [g[0] if a.startswith("-X") else g[1] if a.startswith("-Y") else a for a in c]
        return c
    s["cmd"] = f(s.cmd); s["setup"] = [f(c) for c in s.setup]; return s
def okada_l(r): s = okada(r); return bigger(r, s) if r.random() < .3 else s
def static_syn_l(r): s = static_syn(r); return bigger(r, s) if r.random() < .3 else s
def static_tensor_l(r): s = static_tensor(r); return bigger(r, s) if r.random() < .3 else s
def eigenfn_l(r): s = eigenfn(r); return bigger(r, s) if r.random() < .3 else s
LONG = dict(okada_l=okada_l, static_syn_l=static_syn_l, static_tensor_l=static_tensor_l, eigenfn_l=eigenfn_l, greenfn_l=greenfn_l, syn_l=syn_l, tensor_l=tensor_l, sac2asc_l=sac2asc_l)
ALL = dict(greenfn=greenfn, kernel=kernel, eigenv=eigenv, eigenv_x=eigenv_x, eigenfn=eigenfn, modsum=modsum, syn=syn, tensor=tensor,
           static_greenfn=static_greenfn, static_syn=static_syn, static_ff=static_ff, static_tensor=static_tensor, okada=okada,
           travt=travt, lamb1=lamb1, sac2asc=sac2asc, disp2asc=disp2asc, ker2asc=ker2asc)
