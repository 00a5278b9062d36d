"""P05: products over general (non-orthogonal) metrics."""
from spec._lib import *

P = "P05"
F = {"gp": ("gp(x, y)", lambda E: E.x.gp(E.y)), "lcont": ("lcont(x, y)", lambda E: E.x.lcont(E.y)), "rcont": ("rcont(x, y)", lambda E: E.x.rcont(E.y)),
     "dot": ("dot(x, y)", lambda E: E.x.dot(E.y)), "hip": ("hip(x, y)", lambda E: E.x.hip(E.y)), "sp": ("sp(x, y)", lambda E: E.x.sp_(E.y))}
A = list(F.values())
for s, w in (("g2", 2), ("ga1c", 6), ("g3", 6), ("g3d", 5), ("g3n", 6), ("g3f", 6)):
    for k, o in F.items():
        Case(P, f"{k}_full_{s}", s, [Full("x"), Full("y")], [o], weight=w / 3)
for k, o in F.items():
    Case(P, f"{k}_full_ga2c", "ga2c", [Full("x"), Full("y")], [o], weight=12, tier="quick" if k in ("gp", "lcont") else "thorough")
    Case(P, f"{k}_full_ga3c", "ga3c", [Full("x"), Full("y")], [o], weight=120, tier="thorough")
    Case(P, f"{k}_full_g4", "g4", [Full("x"), Full("y")], [o], weight=15, tier="thorough")
    Case(P, f"{k}_vec_biv_ga3c", "ga3c", [Full("x", 1, 1), Full("y", 1, 2)], [o], weight=3)
pairs(P, "all", "ga1c", A, ["dv", "db", "cbn", "sum", "mix"], weight=2)
pairs(P, "all", "ga2c", A[:2] + A[5:], ["dv", "db", "cbn"], weight=2)
pairs(P, "all", "g3", A, ["sum", "cbn", "csum", "ub12", "kv2"], weight=1.5)

# four and more vectors at once: minors of every order
for s in ("g4", "g4f", "ga3c"):
    b4 = Operand("x", "$0 * (e(c<1>) ^ e(c<2>) ^ e(c<3>) ^ e(c<4>))", lambda E, r, i, q: E.e(1, 2, 3, 4) * r[0], real=1)
    k4 = Operand("y", "$0 * (e(c<2>) ^ e(c<1>) ^ e(c<4>) ^ e(c<3>)) + $1 * (e(c<1>) ^ e(c<3>) ^ e(c<4>)) + $2 * (e(c<2>) ^ e(c<4>))",
                 lambda E, r, i, q: E.e(1, 2, 3, 4) * r[0] + E.e(1, 3, 4) * r[1] + E.e(2, 4) * r[2], real=3)
    Case(P, f"four_{s}", s, [b4, k4], A, weight=6)
    Case(P, f"four_rev_{s}", s, [Operand("x", k4.cxx, k4.mv, real=3), Operand("y", b4.cxx, b4.mv, real=1)], A, weight=6)
Case(P, "five_ga3c", "ga3c", [Operand("x", "$0 * (e(c<1>) ^ e(c<2>) ^ e(c<3>) ^ e(c<4>) ^ e(c<5>))", lambda E, r, i, q: E.I * r[0], real=1),
                              Operand("y", "$0 * (e(c<1>) ^ e(c<2>) ^ e(c<3>) ^ e(c<4>) ^ e(c<5>)) + $1 * (e(c<1>) ^ e(c<2>) ^ e(c<4>) ^ e(c<5>))", lambda E, r, i, q: E.I * r[0] + E.e(1, 2, 4, 5) * r[1], real=2)], A, weight=6)
# many dimensions
for k, (x, y) in enumerate((((8,), (8,)), ((9,), (10,)), ((8, 10), (8, 9)), ((3, 9), (9, 10)), ((1, 7, 9), (7, 10)))):
    w = lambda v: "$0 * (" + " ^ ".join(f"e(c<{i}>)" for i in v) + ")"
    Case(P, f"c8_{k}", "c8", [Operand("x", w(x), lambda E, r, i, q, x=x: E.e(*x) * r[0], real=1), Operand("y", w(y), lambda E, r, i, q, y=y: E.e(*y) * r[0], real=1)], A[:2] + A[5:], weight=4)
Case(P, "c8_run", "c8", [Operand("x", "$0 * e(#0)", lambda E, r, i, q: E.e(i[0]) * r[0], real=1, idx=1, dom=[[1, 8, 9, 10]]), Operand("y", "$0 * e(#0)", lambda E, r, i, q: E.e(i[0]) * r[0], real=1, idx=1, dom=[[1, 8, 9, 10]])], A, weight=4)
Case(P, "c32_vec", "c32", [Operand("x", "$0 * e(c<32>) + $1 * e(c<33>)", lambda E, r, i, q: E.e(32) * r[0] + E.e(33) * r[1], real=2),
                           Operand("y", "$0 * e(c<32>) + $1 * e(c<34>)", lambda E, r, i, q: E.e(32) * r[0] + E.e(34) * r[1], real=2)], A, weight=4)
