"""P11: dualization is the contraction onto the (inverse) pseudoscalar and undual inverts it."""
from spec._lib import *

P = "P11"
D = [("dual(x)", lambda E: E.x.dual()), ("undual(x)", lambda E: E.x.undual()), ("undual(dual(x))", lambda E: E.x), ("dual(undual(x))", lambda E: E.x)]
for s, w in (("ga1e", .5), ("ga2e", .5), ("ga3e", 1), ("ga4e", 2), ("ga1m", 1), ("ga2m", 2), ("ga1c", 2), ("ga2h", 1), ("s111", 1), ("s121", 1), ("s030", 1)):
    if s in ("s111", "s121"):  # degenerate: only the contraction onto I
        Case(P, f"undual_full_{s}", s, [Full("x")], D[1:2], weight=w)
    else:
        Case(P, f"dual_full_{s}", s, [Full("x")], D, weight=w)
for s, w in (("ga5e", 3), ("ga3m", 3), ("ga2c", 8)):
    for o in range(2):
        Case(P, f"dual{o}_full_{s}", s, [Full("x")], D[o:o + 1], weight=w)
for k in ("kv1", "kv2", "vec", "cb1", "cbn", "cb21", "ub1", "ub12", "nb21", "csum", "dv", "du", "db", "dg", "mix", "dsum", "uu", "ud", "sum", "sc", "ic", "ps"):
    Case(P, f"dual_ga3e_{k}", "ga3e", [operand(k, "x", 3)], D, weight=.6)
    Case(P, f"dual_ga1m_{k}", "ga1m", [operand(k, "x", 3)], D, weight=.6)
for k in ("vec", "cb1", "cb21", "ub12", "csum", "sum", "kv2", "dv"):
    Case(P, f"dual_ga1c_{k}", "ga1c", [operand(k, "x", 3)], D, weight=1)
Case(P, "dual_native", "ga3e", [operand("nat", "x", 3)], [("dual(x)", lambda E: E.x.dual()), ("undual(x)", lambda E: E.x.undual())])


def du(E, I):
    return E.x.lcont(I.versor_inverse())


# an explicit pseudoscalar (of a subspace)
Case(P, "dual_sub_ga3e", "ga3e", [Full("x"), Operand("B", "$0 * (e(c<1>) ^ e(c<2>))", lambda E, r, i, q: E.e(1, 2) * r[0], real=1)],
     [("dual(x, B)", lambda E: du(E, E.B)), ("undual(x, B)", lambda E: E.x.lcont(E.B)), ("undual(dual(take_grade(x, c<0>), B), B)", lambda E: E.x.grades(0))],
     requires=lambda E: [(E.r["B"][0], {-1, 1})], weight=2)
Case(P, "dual_gen_ga3e", "ga3e", [Full("x", 1, 1), Full("u", 1, 1), Full("w", 1, 1)],
     [("dual(x, u ^ w)", lambda E: du(E, E.u ^ E.w)), ("undual(x, u ^ w)", lambda E: E.x.lcont(E.u ^ E.w))],
     requires=lambda E: [((E.u ^ E.w).rnorm_sqr(), {1})], weight=2)
Case(P, "dual_dyn_ga3e", "ga3e", [Full("x", 1, 2), Operand("B", "$0 * (e(#0) ^ e(#1))", lambda E, r, i, q: E.e(*i) * r[0], real=1, idx=2)],
     [("undual(x, B)", lambda E: E.x.lcont(E.B))], weight=2)
wide_cases(P, D, kinds2=None)
