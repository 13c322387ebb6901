"""P06: NetCDF writers"""
from faultcheck import *
import faultcheck as fc
ID = "P06"; LEVEL = "exploration"; VARIANTS = ["plain"]
CASES = dict(quick=20000, thorough=200000); BUDGET = dict(quick=75, thorough=1500)
RULE = "distinct (module, operation kind and file class hit, fault kind and argument, success/failure) combinations among runs in which the fault fired"
ASSUME = COMMON_ASSUME
GENS = ["static_greenfn", "static_syn_l", "static_ff", "static_tensor_l", "static_tensor_l", "okada_l", "eigenv", "eigenfn_l", "eigenfn_l"]
def want(op, path): return op in ("open_w", "write", "close_w", "mkdir", "trunc", "rename", "unlink", "fsync", "seek", "access", "stat", "lib_w")
def explore(r, o, tier): fc.explore(r, o, tier, ID, GENS, want, ("nc",), False, 8)
def execute(desc): return fc.execute(desc, ID, ("nc",), False)
