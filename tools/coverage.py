"""Which blocks of /repo's C code do the scenarios of the checks reach?  coverage.py [P01 …]   (development aid, not a check)
Works on a copy of /verif under /tmp/grtsim-cov; prints the lines that no simulated run reached."""
import os, re, shutil, subprocess, sys, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = "/tmp/grtsim-cov"
props = [a for a in sys.argv[1:] if a[0] == "P"] or ["P%02d" % i for i in range(1, 17)]
shutil.rmtree(W, ignore_errors=True); shutil.copytree(V, W, ignore=shutil.ignore_patterns(".git", ".build", "evidence", "replays", "seeded"))
os.makedirs(W + "/evidence", exist_ok=True)
b = W + "/grtsim/build.py"; s = open(b).read()
s = s.replace('"plain": ["-O2"]', '"plain": ["-O1", "-fsanitize-coverage=trace-pc"]').replace('"-fsanitize=thread"', '"-fsanitize=thread", "-fsanitize-coverage=trace-pc"').replace('"-ftrivial-auto-var-init=pattern"', '"-ftrivial-auto-var-init=pattern", "-fsanitize-coverage=trace-pc"')
s = s.replace('["-lpthread"', '["%s/tools/cov.o", "-lpthread"' % W)
open(b, "w").write(s)
subprocess.run(["gcc", "-O2", "-c", W + "/tools/cov.c", "-o", W + "/tools/cov.o"], check=True)
for p in props:
    r = subprocess.run([sys.executable, W + "/grtsim/check.py", p, "quick"], cwd=W, capture_output=True, text=True)
    print("#", p, "exit", r.returncode, r.stdout.strip().splitlines()[-1:] , file=sys.stderr, flush=True)
hit, allb = collections.defaultdict(bool), set()
for d in os.listdir(W + "/.build"):
    exe = "%s/.build/%s/grt" % (W, d)
    if not os.path.exists(exe + ".cov"): continue
    m = open(exe + ".cov", "rb").read()
    dis = subprocess.run(["objdump", "-d", "--no-show-raw-insn", exe], capture_output=True, text=True).stdout.splitlines()
    pcs = [int(dis[i + 1].split(":")[0], 16) for i, l in enumerate(dis[:-1]) if "call" in l and "<__sanitizer_cov_trace_pc>" in l]
    out = subprocess.run(["addr2line", "-e", exe] + [hex(p) for p in pcs] if len(pcs) < 500 else ["addr2line", "-e", exe], input="\n".join(hex(p) for p in pcs), capture_output=True, text=True).stdout.splitlines()
    for pc, loc in zip(pcs, out):
        k = re.sub(r" \(disc.*", "", loc)
        if "C_extension" not in k: continue
        k = re.sub(r".*C_extension/", "", k); hit[k] |= bool(m[pc - 0x400000]); allb.add(k)
by = collections.defaultdict(list)
for k in allb:
    f, l = k.rsplit(":", 1)
    if not hit[k] and l.isdigit(): by[f].append(int(l))
src = {}
for f in sorted(by):
    L = open("/repo/pygrt/C_extension/" + f).read().splitlines() if os.path.exists("/repo/pygrt/C_extension/" + f) else []
    print("==", f, len(by[f]), "of", sum(1 for k in allb if k.startswith(f + ":")))
    for l in sorted(by[f]): print("  %d: %s" % (l, L[l - 1].strip()[:140] if l <= len(L) else ""))
print("lines with blocks:", len(allb), "reached:", sum(hit[k] for k in allb))
