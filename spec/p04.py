"""P04: contractions, dot, Hestenes and scalar products are grade parts of the geometric product."""
from spec._lib import *

P = "P04"
F = {"lcont": ("lcont(x, y)", lambda E: E.x.lcont(E.y)), "rcont": ("rcont(x, y)", lambda E: E.x.rcont(E.y)), "dot": ("dot(x, y)", lambda E: E.x.dot(E.y)),
     "hip": ("hip(x, y)", lambda E: E.x.hip(E.y)), "sp": ("sp(x, y)", lambda E: E.x.sp_(E.y))}
OPS = [("x < y", lambda E: E.x.lcont(E.y)), ("x > y", lambda E: E.x.rcont(E.y)), ("x | y", lambda E: E.x.dot(E.y))]
OPS = [(f"({a})", b) for a, b in OPS]
ALL5 = list(F.values())
for s, w in (("ga1e", 1), ("ga2e", 2), ("ga3e", 4), ("ga2p", 4), ("s111", 4)):
    Case(P, f"all_full_{s}", s, [Full("x"), Full("y")], ALL5 + OPS, weight=w)
for s in ("ga4e", "s211"):
    for k, o in F.items():
        Case(P, f"{k}_full_{s}", s, [Full("x"), Full("y")], [o], weight=5)
for s in ("ga5e", "ga3m"):
    for k, o in F.items():
        Case(P, f"{k}_full_{s}", s, [Full("x"), Full("y")], [o], weight=30, tier="thorough")
pairs(P, "all", "ga3e", ALL5 + OPS, ["dv", "db", "dg", "mix", "dsum", "uu", "ud", "full", "cb21", "csum", "sc", "ub12"], weight=1.2)
pairs(P, "all", "s111", ALL5, ["du", "db", "dg", "cbn", "nb21", "sum"], weight=1)
pairs(P, "alls", "ga3e", ALL5 + OPS, ["nat"], ["full", "dv", "cb1"], weight=1)
pairs(P, "alls", "ga3e", ALL5 + OPS, ["full", "dv", "cb1"], ["nat"], weight=1)
pairs(P, "allq", "s111", ALL5, ["qv"], ["qv", "dv", "csum"], weight=1)
# every overload with an explicit metric: native scalars, scalar multivectors, constants
metric_pairs(P, "allm", {"lcont": lambda E, x, y: x.lcont(y), "rcont": lambda E, x, y: x.rcont(y), "dot": lambda E, x, y: x.dot(y), "hip": lambda E, x, y: x.hip(y), "sp": lambda E, x, y: x.sp_(y)},
             ["full", "nat", "sc", "ic", "cb1", "db", "csum"], weight=1)
Case(P, "all_nn", "s111", [operand("nat", "x", 3), operand("nat", "y", 3)], ALL5)
wide_cases(P, ALL5, weight=1)
