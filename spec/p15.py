"""P15: commutator and delta products."""
from spec._lib import *
from fractions import Fraction

P = "P15"
DEF = RF.const(Fraction(1.0e-8))
CP = [("cp(x, y)", lambda E: (E.x.gp(E.y) - E.y.gp(E.x)).scale(Fraction(1, 2)))]


def small(E, v, t):
    return v.is_zero() or (E.le(v, t) and E.le(-t, v))


def delta(E, m, t):
    """The part of highest grade with a coefficient that is not within the tolerance (nothing: zero)."""
    for g in range(E.N, -1, -1):
        for b, v in sorted(m.d.items()):
            if grade(b) == g and not small(E, v, t):
                return m.grades(g)
    return E.s(0)


T = Operand("t", "$0", lambda E, r, i, q: E.s(r[0]), real=1)
TT = lambda E: E.r["t"][0]
REQ = lambda E: [(TT(E), {0, 1})]
DP = [("dp(x, y, t)", lambda E: delta(E, E.x.gp(E.y), TT(E)))]
DPD = [("dp(x, y)", lambda E: delta(E, E.x.gp(E.y), DEF))]
for s, w in (("ga1e", .5), ("ga2e", .5), ("ga3e", 1), ("ga4e", 4), ("ga1m", 1), ("ga2m", 4), ("ga1c", 2), ("ga2p", 1), ("s111", 1), ("s022", 4), ("g2", 1), ("g3", 4)):
    Case(P, f"cp_full_{s}", s, [Full("x"), Full("y")], CP, weight=w)
for s, a, b, w in (("ga5e", (2, 2), (0, 5), 6), ("ga2c", (1, 2), (1, 2), 5), ("ga3c", (1, 1), (1, 1), 2), ("ga3c", (2, 2), (1, 1), 4), ("g4f", (1, 1), (1, 2), 4)):
    Case(P, f"cp_{s}_{a[0]}{a[1]}_{b[0]}{b[1]}", s, [Full("x", *a), Full("y", *b)], CP, weight=w)
Z = ["full", "vec", "kv2", "cb1", "cb21", "ub1", "nb21", "dv", "db", "sum", "sc", "ps", "ic", "mix", "dg", "nat"]
for s in ("ga3e", "s111"):
    for a in Z:
        for b in Z:
            if (a, b) == ("nat", "nat") or s == "s111" and (a in ("ic", "sc", "nat", "nb21", "ps", "dg") or b in ("ic", "sc", "nat", "nb21", "ps", "dg")):
                continue
            ex = a in ("ub1", "nb21", "ps", "ic") and b in ("ub1", "nb21", "ps", "ic")
            Case(P, f"cp_{s}_{a}_{b}", s, [operand(a, "x", 3), operand(b, "y", 3)], [(("1.0 * " if ex else "") + CP[0][0], CP[0][1])], weight=.4)
for s, a, b, w in (("ga1e", None, None, 1), ("ga2e", (1, 1), (1, 1), 1), ("ga2e", (0, 2), (1, 1), 1), ("ga3e", (1, 1), (1, 1), 2), ("ga3e", (1, 1), (2, 2), 2), ("ga3e", (2, 2), (2, 2), 2), ("ga3e", (2, 2), (1, 1), 2),
                   ("ga1m", (1, 1), (1, 1), 2), ("ga1c", (1, 1), (1, 1), 2), ("ga2p", (1, 1), (2, 2), 2), ("ga4e", (1, 1), (1, 1), 3)):
    ops = [Full("x", *(a or ())), Full("y", *(b or ()))]
    nm = f"{s}_{'full' if a is None else f'{a[0]}{a[1]}_{b[0]}{b[1]}'}"
    Case(P, f"dp_{nm}", s, ops + [T], DP, requires=REQ, weight=w, tier="thorough" if s == "ga4e" else "quick")
    Case(P, f"dpd_{nm}", s, ops, DPD, weight=w, tier="thorough" if s == "ga4e" else "quick")
ZD = ["cb1", "cb21", "ub1", "dv", "db", "sum", "sc", "ps", "nb21", "vec", "nat", "ic"]
for s in ("ga3e", "ga1m"):
    for a in ZD:
        for b in ZD:
            if (a, b) in (("vec", "sum"), ("sum", "vec"), ("sum", "sum"), ("vec", "vec"), ("nat", "nat")) and s != "ga3e" or s == "ga1m" and (a in ("nat", "ic", "sc", "nb21") or b in ("nat", "ic", "sc", "nb21")):
                continue
            ex = a in ("ub1", "nb21", "ps", "ic") and b in ("ub1", "nb21", "ps", "ic")
            Case(P, f"dp_{s}_{a}_{b}", s, tier="thorough" if (a, b) in (("vec", "sum"), ("sum", "vec"), ("sum", "sum"), ("vec", "vec")) else "quick", ops=[operand(a, "x", 3), operand(b, "y", 3), T], outs=DP if not ex else [("1.0 * dp(1.0 * x, y, t)", DP[0][1])], requires=REQ, weight=.5)
# every overload with an explicit metric, with or without a tolerance: native scalars, scalar multivectors, constants
NK = ["nat", "sc", "ic", "cb1", "cb21", "db"]
metric_pairs(P, "cpm", {"cp": lambda E, x, y: (x.gp(y) - y.gp(x)).scale(Fraction(1, 2))}, NK + ["full"], exact=("ic",))
metric_pairs(P, "dpm", {"dp": lambda E, x, y: delta(E, x.gp(y), TT(E))}, NK + ["sum"], skip=[("sum", "sum")], extra=[T], tail=", t", requires=REQ, exact=("ic",), weight=.7)
metric_pairs(P, "dpmd", {"dp": lambda E, x, y: delta(E, x.gp(y), DEF)}, NK + ["sum"], skip=[("sum", "sum")], exact=("ic",), weight=.7)
Case(P, "dp_nn", "ga3e", [operand("nat", "x", 3), operand("nat", "y", 3), T], DP + DPD, requires=REQ, weight=.5)
Case(P, "cp_nn", "ga3e", [operand("nat", "x", 3), operand("nat", "y", 3)], CP, weight=.5)
wide_cases(P, CP)
