"""P07: tables, statistics, kernels, provenance"""
from faultcheck import *
import faultcheck as fc
ID = "P07"; LEVEL = "exploration"; VARIANTS = ["plain"]
CASES = dict(quick=20000, thorough=200000); BUDGET = dict(quick=75, thorough=1500)
RULE = "distinct (module, operation kind and file class hit, fault kind and argument, success/failure) combinations among runs in which the fault fired"
ASSUME = COMMON_ASSUME
GENS = ["greenfn", "greenfn", "kernel", "kernel", "modsum", "syn", "static_greenfn", "eigenv_x", "travt", "lamb1", "sac2asc_l", "disp2asc", "ker2asc"]
def want(op, path): return op in ("open_w", "write", "close_w", "mkdir", "stdout", "stdclose", "trunc", "rename", "unlink", "fsync", "access", "stat", "opendir")
def explore(r, o, tier): fc.explore(r, o, tier, ID, GENS, want, ("aux",), True, 8)
def execute(desc): return fc.execute(desc, ID, ("aux",), True)
