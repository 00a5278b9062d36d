"""P03: the regressive product is the outer product of complements."""
from spec._lib import *

P = "P03"
RP = [("rp(x, y)", lambda E: E.x.rp(E.y))]
for s, w in (("ga1e", 1), ("ga2e", 1), ("ga3e", 2), ("ga2p", 2), ("s111", 2), ("ga4e", 6), ("ga3p", 6), ("ga2c", 6)):
    Case(P, f"rp_full_{s}", s, [Full("x"), Full("y")], RP, weight=w)
for s in ("ga5e", "ga3c"):
    Case(P, f"rp_full_{s}", s, [Full("x"), Full("y")], RP, weight=25, tier="quick" if s == "ga5e" else "thorough")
pairs(P, "rp", "ga3e", RP, DYN + ["full", "vec", "kv2", "cb21", "csum", "sc", "ub12", "ps"])
pairs(P, "rp", "ga2e", RP, DYN + ["full", "cb1", "cbn", "ps", "sc"])
pairs(P, "rp", "ga2c", RP, ["dv", "db", "kv2", "ps"])
pairs(P, "rps", "ga2e", RP, ["nat"], ["full", "db", "ps"])
pairs(P, "rps", "ga2e", RP, ["full", "db", "ps"], ["nat"])
Case(P, "rp_nn", "ga2e", [operand("nat", "x", 2), operand("nat", "y", 2)], RP)
Case(P, "rp3_ga3e", "ga3e", [Full("x", 2, 2), Full("y", 2, 2), Full("z", 2, 2)], [("rp(rp(x, y), z)", lambda E: E.x.rp(E.y).rp(E.z)), ("rp(x, rp(y, z))", lambda E: E.x.rp(E.y).rp(E.z))], weight=2)
D4 = lambda n, k: Operand(n, "$0 * (e(#0) ^ e(#1) ^ e(#2))", lambda E, r, i, q: E.e(*i) * r[0], real=1, idx=3)
Case(P, "rp_dyn3_ga3e", "ga3e", [D4("x", 3), operand("db", "y", 3)], RP, weight=2)
Case(P, "rp_dyn3_ga4e", "ga4e", [D4("x", 3), Full("y")], RP, weight=4)
# every overload with an explicit metric: native scalars, scalar multivectors, constants
metric_pairs(P, "rpm", {"rp": lambda E, x, y: x.rp(y)}, ["full", "nat", "sc", "ic", "cb21", "db", "ps"])
# 63 dimensions: hyperplanes (products of the pseudoscalar with few basis vectors) meet in what the complements join
HYP = lambda n, k: Operand(n, f"$0 * (e(c<{k}>) * pseudoscalar())", lambda E, r, i, q: E.e(k).gp(E.I) * r[0], real=1)
HYD = lambda n: Operand(n, "$0 * (e(#0) * pseudoscalar())", lambda E, r, i, q: E.e(i[0]).gp(E.I) * r[0], real=1, idx=1, dom=[[1, 31, 32, 33, 34, 62, 63]])
for a, b in ((1, 2), (63, 1), (33, 32), (32, 33), (40, 40)):
    Case(P, f"wide_c{a}_{b}", "s63", [HYP("x", a), HYP("y", b)], RP + [("rp(x, pseudoscalar())", lambda E: E.x), ("rp(pseudoscalar(), y)", lambda E: E.y)], weight=.5)
Case(P, "wide_dc", "s63", [HYD("x"), HYP("y", 33)], RP, weight=.5)
Case(P, "wide_cd", "s63", [HYP("x", 32), HYD("y")], RP, weight=.5)
Case(P, "wide_dd", "s63", [HYD("x"), HYD("y")], RP, weight=.8)
wide_cases(P, RP, ["wv", "wb", "wc"], ["wu", "wc"])
