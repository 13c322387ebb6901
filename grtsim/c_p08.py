"""P08: read faults"""
from faultcheck import *
import faultcheck as fc
ID = "P08"; LEVEL = "exploration"; VARIANTS = ["plain"]
CASES = dict(quick=20000, thorough=200000); BUDGET = dict(quick=75, thorough=1500)
RULE = "distinct (module, operation kind and file class hit, fault kind and argument, success/failure) combinations among runs in which the fault fired"
ASSUME = COMMON_ASSUME
GENS = [g for g in work.ALL if g not in ("lamb1", "syn", "tensor", "sac2asc")] + ["syn_l", "tensor_l", "sac2asc_l"]
def want(op, path): return op in ("open_r", "read", "opendir", "readdir", "stat", "access", "lib_r")
def explore(r, o, tier): fc.explore(r, o, tier, ID, GENS, want, ("sac", "nc", "aux"), True, 8)
def execute(desc): return fc.execute(desc, ID, ("sac", "nc", "aux"), True)
