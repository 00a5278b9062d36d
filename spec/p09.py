"""P09: reversion, grade involution and Clifford conjugation."""
from spec._lib import *

P = "P09"
U = [("reverse(x)", lambda E: E.x.rev()), ("involute(x)", lambda E: E.x.inv_()), ("conjugate(x)", lambda E: E.x.conj()), ("~x", lambda E: E.x.rev())]
INV = [("~~x", lambda E: E.x), ("involute(involute(x))", lambda E: E.x), ("conjugate(conjugate(x))", lambda E: E.x), ("involute(~x)", lambda E: E.x.conj())]
for s in ("ga1e", "ga2e", "ga3e", "ga4e", "ga5e", "ga3m", "ga3c", "ga3p", "s111"):
    Case(P, f"unary_full_{s}", s, [Full("x")], U + INV, weight=1)
for s, n in (("ga3e", 3), ("ga5e", 5), ("ga3c", 5)):
    for k in ("kv1", "kv2", "vec", "cb1", "cbn", "cb21", "ub1", "ub12", "nb21", "csum", "dv", "du", "db", "dg", "mix", "dsum", "uu", "ud", "sum", "sc", "ic", "zc", "ps", "qv"):
        Case(P, f"unary_{s}_{k}", s, [operand(k, "x", n)], U + INV, weight=.5)
Case(P, "native", "ga3e", [operand("nat", "x", 3)], [("reverse(x)", lambda E: E.x), ("involute(x)", lambda E: E.x), ("conjugate(x)", lambda E: E.x)])
tri = Operand("x", "$0 * (e(#0) ^ e(#1) ^ e(#2))", lambda E, r, i, q: E.e(*i) * r[0], real=1, idx=3)
Case(P, "dyn3", "ga4e", [tri], U + INV, weight=2)
quad = Operand("x", "$0 * (e(#0) ^ e(#1) ^ e(#2) ^ e(c<5>)) + $1 * (e(#0) ^ e(#1))", lambda E, r, i, q: E.e(*i, 5) * r[0] + E.e(i[0], i[1]) * r[1], real=2, idx=3)
Case(P, "dyn4", "ga5e", [quad], U, weight=3)
mixed = Operand("x", "$0 * e(#0) * e(#1) * e(#2)", lambda E, r, i, q: E.e(i[0]).gp(E.e(i[1])).gp(E.e(i[2])) * r[0], real=1, idx=3)
Case(P, "dyngp", "ga3e", [mixed], U + INV, weight=2)
# anti-automorphism / automorphism
Case(P, "auto_ga3e", "ga3e", [Full("x"), Full("y")], [("~(x * y)", lambda E: E.y.rev().gp(E.x.rev())), ("(~y) * (~x)", lambda E: E.x.gp(E.y).rev()),
     ("involute(x * y)", lambda E: E.x.inv_().gp(E.y.inv_())), ("conjugate(x ^ y)", lambda E: E.y.conj() ^ E.x.conj())], weight=3)
Case(P, "auto_dyn", "ga3e", [operand("db", "x", 3), operand("mix", "y", 3)], [("~(x * y)", lambda E: E.y.rev().gp(E.x.rev())), ("involute(x * y)", lambda E: E.x.inv_().gp(E.y.inv_())),
     ("conjugate(x ^ y)", lambda E: E.y.conj() ^ E.x.conj())], weight=3)
# every grade up to the largest one that the library supports: compile-time blades e1 ^ ... ^ ek in 63 dimensions
for lo in range(0, 64, 8):
    ks = [k for k in range(max(lo, 1), lo + 8) if k < 64]
    Case(P, f"grades{lo}_s63", "s63", [Operand(f"x{k}", f"$0 * pseudoscalar(signed_metric_space<{k}, 0, 0>())", (lambda k: lambda E, r, i, q: MV(E.sp, {(1 << k) - 1: r[0]}))(k), real=1) for k in ks],
         [(f"{f}(x{k})", (lambda k, m: lambda E: getattr(E.v[f"x{k}"], m)())(k, m)) for k in ks for f, m in (("reverse", "rev"), ("involute", "inv_"), ("conjugate", "conj"))], weight=1)
wide_cases(P, U + INV, kinds2=None)
