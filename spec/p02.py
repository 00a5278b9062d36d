"""P02: the outer product."""
from spec._lib import *

P = "P02"
OP = [("op(x, y)", lambda E: E.x ^ E.y), ("x ^ y", lambda E: E.x ^ E.y)]
for s, w in (("ga1e", 1), ("ga2e", 1), ("ga3e", 2), ("ga1c", 2), ("ga2p", 2), ("s111", 2)):
    Case(P, f"op_full_{s}", s, [Full("x"), Full("y")], OP, weight=w)
for s, w in (("ga4e", 6), ("ga2c", 6), ("s022", 6)):
    Case(P, f"op_full_{s}", s, [Full("x"), Full("y")], OP[:1], weight=w)
for s in ("ga5e", "ga3c"):
    Case(P, f"op_full_{s}", s, [Full("x"), Full("y")], OP[:1], weight=25 , tier="quick" if s == "ga5e" else "thorough")
pairs(P, "op", "ga3e", OP, DYN + ["full", "vec", "cb21", "csum", "sc", "ub12"])
pairs(P, "op", "ga1c", OP, ["dv", "db", "cbn", "sum", "csum"])
pairs(P, "op", "ga2p", OP, ["du", "db", "dsum", "cb21", "kv2"])
pairs(P, "ops", "ga3e", OP, ["nat"], ["full", "dv", "cb1", "sum"])
pairs(P, "ops", "ga3e", OP, ["full", "dv", "cb1", "sum"], ["nat"])
pairs(P, "opq", "ga3e", OP, ["qv"], ["qv", "qfull", "cb1", "dv"])
V5 = [operand("vec", k, 5) for k in "xyz"]
Case(P, "op3_ga5e", "ga5e", V5, [("x ^ y ^ z", lambda E: E.x ^ E.y ^ E.z), ("x ^ (y ^ z)", lambda E: E.x ^ E.y ^ E.z), ("y ^ x", lambda E: -(E.x ^ E.y)), ("x ^ x", lambda E: E.s(0))], weight=3)
Case(P, "op4_dyn_ga4e", "ga4e", [operand("dv", k, 4) for k in "xyzw"], [("x ^ y ^ z ^ w", lambda E: E.x ^ E.y ^ E.z ^ E.w), ("(x ^ y) ^ (z ^ w)", lambda E: E.x ^ E.y ^ E.z ^ E.w)], weight=4)
Case(P, "op5_dyn_ga5e", "ga5e", [operand("du", "x", 5), operand("db", "y", 5), operand("db", "z", 5)], [("(x ^ y) ^ z", lambda E: E.x ^ E.y ^ E.z)], weight=4, tier="thorough")
# every overload with an explicit metric: native scalars, scalar multivectors, constants
metric_pairs(P, "opm", {"op": lambda E, x, y: x ^ y}, ["full", "nat", "sc", "ic", "cb1", "dv", "csum"])
Case(P, "op_nn", "s111", [operand("nat", "x", 3), operand("nat", "y", 3)], [("op(x, y)", lambda E: E.x ^ E.y)])
wide_cases(P, OP)
