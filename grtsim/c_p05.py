"""P05: SAC writers"""
from faultcheck import *
import faultcheck as fc
ID = "P05"; LEVEL = "exploration"; VARIANTS = ["plain"]
CASES = dict(quick=20000, thorough=200000); BUDGET = dict(quick=75, thorough=1500)
RULE = "distinct (module, operation kind and file class hit, fault kind and argument, success/failure) combinations among runs in which the fault fired"
ASSUME = COMMON_ASSUME
GENS = ["greenfn_l"] * 3 + ["modsum"] * 2 + ["syn_l"] * 3 + ["tensor_l"] * 3
def want(op, path): return op in ("open_w", "write", "close_w", "mkdir", "trunc", "rename", "unlink", "fsync", "seek") or (op in ("opendir", "access", "stat") and True)
def explore(r, o, tier): fc.explore(r, o, tier, ID, GENS, want, ("sac",), False, 8)
def execute(desc): return fc.execute(desc, ID, ("sac",), False)
