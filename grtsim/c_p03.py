"""P03: schedule independence of modal modules"""
from schedcheck import *
import schedcheck as sc
ID = "P03"; LEVEL = "exploration"; VARIANTS = ["plain", "tsan"]
CASES = dict(quick=20000, thorough=200000); BUDGET = dict(quick=80, thorough=1500)
RULE = "distinct schedules: hash of the sequence of context switches (step, worker) and of loop chunks handed to workers, over runs with at least one parallel region of two or more workers"
GENS = ["eigenv", "eigenfn", "eigenfn", "modsum"]
def explore(r, o, tier): sc.explore(r, o, tier, ID, GENS, 2, 10)
def execute(desc): return sc.execute(desc, ID)
