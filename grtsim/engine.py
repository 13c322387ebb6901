"""Exploration loop, violation gate, minimisation, replay files, evidence."""
import os, sys, json, time, random, hashlib, collections, traceback, subprocess, signal
import multiprocessing as mp
import core, build

KNOWN = os.path.join(core.VERIF, "known_findings.json")
REPLAYS = os.path.join(core.VERIF, "replays")
EVID = os.path.join(core.VERIF, "evidence")

class Outcome:
    """What one case (one seed) did."""
    def __init__(self):
        self.runs = 0; self.viol = []; self.st = collections.Counter(); self.distinct = set(); self.samples = []; self.skipped = 0
    def violation(self, sig, text, desc): self.viol.append((sig, text, desc))
    def note(self, r):
        """account one simulated process"""
        self.runs += 1
        p = r.rep
        if not p: return
        for i, n in enumerate(p["faults_fired"]):
            if n: self.st["fault:" + core.FK[i]] += n
        if p["alloc_faults_fired"]: self.st["fault:alloc"] += p["alloc_faults_fired"]
        self.st["io_ops"] += p["ops"]; self.st["steps"] += p["steps"]; self.st["switches"] += p["switches"]
        self.st["clock_us"] += p["clock_us"] - 1700000000000000 if p["clock_us"] > 1700000000000000 else 0
        self.st["parallel_regions"] += p["regions"]; self.st["loop_chunks"] += p["iters"]

def h(*a): return hashlib.blake2b(repr(a).encode(), digest_size=8).hexdigest()

def _worker_init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
def _case(args):
    mod, seed, tier = args
    try:
        import importlib
        m = importlib.import_module(mod); o = Outcome(); o.t = time.time(); m.explore(random.Random("%s/%d" % (m.ID, seed)), o, tier); o.t = time.time() - o.t; return seed, o, None
    except Exception:
        return seed, None, traceback.format_exc()

def known():
    try: return json.load(open(KNOWN))["findings"]
    except FileNotFoundError: return []

def fresh_replay(path, timeout=800):
    """Execute a replay file in a fresh process; returns the list of violation signatures it shows."""
    p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "replay.py"), "--json", path], capture_output=True, text=True, timeout=timeout)
    for l in p.stdout.splitlines():
        if l.startswith("RESULT "): return json.loads(l[7:])
    raise RuntimeError("replay failed: %s %s" % (p.stdout[-500:], p.stderr[-1500:]))

def write_replay(mod, sig, text, desc, name=None):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, "%s-%s.json" % (mod.ID, name or h(sig, desc)))
    with open(p, "w") as fp: json.dump({"property": mod.ID, "module": mod.__name__, "signature": sig, "violation": text, "desc": desc}, fp, indent=1, sort_keys=True)
    return p

def run_check(mod, tier, seed):
    t0 = time.time(); budget = float(os.environ.get("GRTSIM_BUDGET", mod.BUDGET[tier])); ncase = int(os.environ.get("GRTSIM_CASES", mod.CASES[tier]))
    jobs = int(os.environ.get("GRTSIM_JOBS", os.cpu_count() or 4))
    for v in mod.VARIANTS: build.build(v)
    tb = time.time() - t0
    if hasattr(mod, "prepare"): mod.prepare()
    kf = [k for k in known() if k["property"] == mod.ID and k.get("status") != "fixed"]; isknown = lambda sig: next((k for k in kf if k["signature"] in sig), None)
    tot = Outcome(); errs = []; slow = []; done = 0; distinct = set(); cases = []
    seeds = [seed * 1000003 + i for i in range(ncase)]
    bykind = collections.OrderedDict()
    with mp.Pool(jobs, _worker_init, maxtasksperchild=200) as pool:
        it = pool.imap_unordered(_case, [(mod.__name__, s, tier) for s in seeds], chunksize=1)
        while True:
            try: s, o, err = it.next(timeout=max(1, budget + 60 - (time.time() - t0)) if tier == "quick" else None)
            except StopIteration: break
            except mp.TimeoutError: pool.terminate(); break
            done += 1
            if err: errs.append("seed %d: %s" % (s, err)); 
            else:
                slow.append((round(o.t, 1), s)); tot.runs += o.runs; tot.st.update(o.st); tot.skipped += o.skipped; distinct |= o.distinct
                if len(tot.samples) < 12: tot.samples += [dict(x, seed=s) for x in o.samples[:1]]
                for v in o.viol: bykind.setdefault(v[0], []).append((s,) + v)
            if len(errs) > 5 or sum(1 for x in bykind if not isknown(x)) >= 12: pool.terminate(); break
            if time.time() - t0 > budget: pool.terminate(); break
    if os.environ.get("GRTSIM_SIGS"):
        for k, v in bykind.items(): print("SIG", [x[0] for x in v][:5], k, "|", v[0][2][:400])
    # ---------------------------------------------------------------- gate
    reported, unstable, seen_known = [], [], {}
    for sig in sorted(bykind):
        k = isknown(sig)
        if k is not None:
            seen_known.setdefault(k["signature"], (k, bykind[sig])); continue
        if len(reported) >= 3: continue
        ok = None
        for (s, _, text, desc) in bykind[sig][:4]:
            p = write_replay(mod, sig, text, desc, "cand-" + h(sig, desc))
            a, b = fresh_replay(p), fresh_replay(p)
            sa, sb = sorted(x[0] for x in a), sorted(x[0] for x in b)
            if sig in sa and sig in sb: ok = (s, text, desc, p); break
            unstable.append((sig, s, text, sa, sb))
        if ok:
            s, text, desc, p = ok
            small = minimise(mod, sig, desc); q = write_replay(mod, sig, text, dict(small, found_with_seed=s))
            r = fresh_replay(q)
            if sig not in [x[0] for x in r]: q = write_replay(mod, sig, text, desc)
            if q != p: os.remove(p)
            reported.append((sig, s, text, q))
    for k in kf:        # a listed finding that the search did not meet is looked for with its own replay file
        if k["signature"] not in seen_known:
            try:
                if any(k["signature"] in x[0] for x in fresh_replay(os.path.join(core.VERIF, k["replay"]))): seen_known[k["signature"]] = (k, [])
            except Exception as e: print("NOTE: replay of a listed finding: %s" % str(e)[-300:])
            if k["signature"] not in seen_known: print("NOTE: listed finding not met in this run: %s" % k["signature"])
    for k, v in seen_known.values(): print("KNOWN-FINDING: property=%s %s" % (mod.ID, k["what"]))
    for sig, s, text, q in reported: print("violation: %s\n  seed %d: %s" % (sig, s, text))
    for sig, s, text, q in reported: print("VIOLATION property=%s replay=%s" % (mod.ID, q))
    wall = time.time() - t0
    ev = dict(property=mod.ID, tier=tier, seed=seed, level=mod.LEVEL, wall_s=round(wall, 1), violations=len(reported),
              assumptions=list(mod.ASSUME),
              coverage=dict(evaluations=tot.runs, distinct_nontrivial=len(distinct), rule=mod.RULE, samples=tot.samples[:8] or ["none"],
                            seeds_run=done, seeds_planned=ncase, cases_skipped=tot.skipped, simulated_runs_per_hour=int(tot.runs / max(wall, .1) * 3600), seeds_per_hour=int(done / max(wall, .1) * 3600),
                            build_s=round(tb, 1), simulated_time_s=round(tot.st["clock_us"] / 1e6, 3), simulated_steps=tot.st["steps"], context_switches=tot.st["switches"],
                            parallel_regions=tot.st["parallel_regions"], loop_chunks_handed_out=tot.st["loop_chunks"], io_operations=tot.st["io_ops"],
                            faults_injected={k[6:]: v for k, v in sorted(tot.st.items()) if k.startswith("fault:")},
                            counters={k: v for k, v in sorted(tot.st.items()) if not k.startswith("fault:") and k not in ("clock_us", "steps", "switches", "parallel_regions", "loop_chunks", "io_ops")},
                            known_findings_seen=[k["signature"] for k, _ in seen_known.values()], real_components=mod.REAL, stubbed_components=mod.STUB))
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, mod.ID + ".json"), "w") as fp: json.dump(ev, fp, indent=1, default=str)
    print("%s %s: %d seeds, %d simulated runs, %d distinct, %.0f s (build %.0f s)" % (mod.ID, tier, done, tot.runs, len(distinct), wall, tb))
    if os.environ.get("GRTSIM_SLOW"): print("slowest cases:", sorted(slow)[-8:])
    print("  faults: %s" % ev["coverage"]["faults_injected"]); print("  counters: %s" % ev["coverage"]["counters"])
    if reported: return 1
    if unstable:
        for x in unstable[:5]: print("UNSTABLE (not reported): %s seed=%s %s replays: %s / %s" % x)
        return 2
    if errs:
        for e in errs[:3]: print("ERROR", e)
        return 2
    if tot.runs == 0 or not distinct: print("ERROR nothing was explored"); return 2
    return 0

def minimise(mod, sig, desc, limit=None):
    """greedy reduction of the description; a candidate is kept if it still shows the same signature"""
    limit = limit or float(os.environ.get("GRTSIM_MINIMISE_S", "100")); t0 = time.time(); cur = desc
    if not hasattr(mod, "shrink"): return cur
    progress = True
    while progress and time.time() - t0 < limit:
        progress = False
        for c in mod.shrink(cur):
            if time.time() - t0 > limit: break
            try: r = mod.execute(c)
            except Exception: continue
            if sig in [x[0] for x in r]: cur = c; progress = True; break
    return cur
