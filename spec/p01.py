"""P01: the geometric product over orthogonal metric spaces is the Clifford product."""
from spec._lib import *

P = "P01"
GP = [("gp(x, y)", lambda E: E.x.gp(E.y)), ("x * y", lambda E: E.x.gp(E.y))]
for s, w in (("ga1e", 1), ("ga2e", 1), ("ga3e", 2), ("ga1m", 2), ("ga2p", 2), ("s111", 2), ("s030", 2)):
    Case(P, f"gp_full_{s}", s, [Full("x"), Full("y")], GP, weight=w)
for s, w in (("ga4e", 10), ("ga3p", 8), ("ga2m", 8), ("s211", 8), ("s022", 8), ("ga3h", 8)):
    Case(P, f"gp_full_{s}", s, [Full("x"), Full("y")], GP[:1], weight=w)
for s in ("ga5e", "ga3m", "ga4p"):
    Case(P, f"gp_full_{s}", s, [Full("x"), Full("y")], GP[:1], weight=60, tier="thorough")
# five dimensions by grade: every product of a vector / bivector with everything else
Case(P, "gp_vec_full_ga5e", "ga5e", [Full("x", 1, 1), Full("y", 0, 3)], GP[:1], weight=8)
Case(P, "gp_biv_ga3m", "ga3m", [Full("x", 2, 2), Full("y", 1, 3)], GP[:1], weight=10)
pairs(P, "gp", "ga3e", GP, DYN + ["full", "vec", "cb21", "csum", "sc", "ub12"])
pairs(P, "gp", "s111", GP, ["dv", "db", "mix", "cbn", "nb21", "full"])
pairs(P, "gp", "ga2p", GP, ["du", "db", "dsum", "cb21", "csum"])
pairs(P, "gp", "ga1m", GP, ["dv", "db", "cbn", "sum"])
pairs(P, "gps", "ga3e", GP, ["nat"], ["full", "dv", "cb1", "sum", "ub12"])
pairs(P, "gps", "ga3e", GP, ["full", "dv", "cb1", "sum", "ub12"], ["nat"])
pairs(P, "gpq", "s111", GP, ["qv"], ["qv", "qfull", "cb1", "dv", "full"])
pairs(P, "gpq", "s111", GP, ["qfull", "full"], ["qv", "csum"])
# associativity and distributivity through three factors built by the library itself
Case(P, "gp3_ga3e", "ga3e", [Full("x"), Full("y", 1, 2), Full("z", 1, 1)], [("gp(gp(x, y), z)", lambda E: E.x.gp(E.y).gp(E.z)),
     ("gp(x, gp(y, z))", lambda E: E.x.gp(E.y).gp(E.z)), ("gp(x, y + z)", lambda E: E.x.gp(E.y) + E.x.gp(E.z))], weight=6)
Case(P, "gp3_dyn_s111", "s111", [operand("dv", "x", 3), operand("dv", "y", 3), operand("dv", "z", 3)],
     [("gp(gp(x, y), z)", lambda E: E.x.gp(E.y).gp(E.z)), ("gp(x, gp(y, z))", lambda E: E.x.gp(E.y).gp(E.z)), ("x * y * z", lambda E: E.x.gp(E.y).gp(E.z))], weight=2)
# explicit metric argument and repeated operand
Case(P, "gp_metric_arg", "ga3e", [Full("x"), Full("y")], [("gp(x, y, signed_metric_space<1, 1, 1>())", lambda E: with_space(E.x, "s111").gp(with_space(E.y, "s111"))),
     ("gp(x, x)", lambda E: E.x.gp(E.x))], weight=4)
Case(P, "gp_same_dyn", "s111", [operand("dsum", "x", 3), operand("mix", "y", 3)], [("gp(x, x)", lambda E: E.x.gp(E.x)), ("gp(y, y)", lambda E: E.y.gp(E.y)),
     ("gp(x, y) - gp(y, x)", lambda E: E.x.gp(E.y) - E.y.gp(E.x))], weight=3)
# every overload with an explicit metric: native scalars, scalar multivectors, constants
metric_pairs(P, "gpm", {"gp": lambda E, x, y: x.gp(y)}, ["full", "nat", "sc", "ic", "cb1", "dv", "csum"])
Case(P, "gp_nn", "s111", [operand("nat", "x", 3), operand("nat", "y", 3)], [("gp(x, y)", lambda E: E.x.gp(E.y))])
# basis vectors on both sides of the limits of narrower integers
wide_cases(P, GP)
