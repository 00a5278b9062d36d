"""P14: the exponential of a blade."""
from spec._lib import *
from fractions import Fraction

P = "P14"
DEF = RF.const(Fraction(1.0e-8))


def ex(E, B, t):
    """Closed form of the power series of a B with B B = s: cos/sin, cosh/sinh or 1 + B."""
    s = B.sprod(B)
    a2 = S.s_abs(s)
    if s.is_zero() or E.le(a2, t):
        return E.s(1) + B
    a = S.s_sqrt(a2)
    if E.le(s, 0):
        return E.s(S.s_fun("cos", a)) + B.scale(S.s_fun("sin", a) / a)
    return E.s(S.s_fun("cosh", a)) + B.scale(S.s_fun("sinh", a) / a)


T = Operand("t", "$0", lambda E, r, i, q: E.s(r[0]), real=1)
TT = lambda E: E.r["t"][0]
REQ = lambda E: [(TT(E), {0, 1})]
OUT = [("exp(x, t)", lambda E: ex(E, E.x, TT(E)))]
OUTD = [("exp(x)", lambda E: ex(E, E.x, DEF))]
for s, w in (("ga2e", 1), ("ga3e", 1), ("ga4e", 2), ("ga1m", 2), ("ga2m", 2), ("ga1c", 2), ("ga2c", 3), ("ga2p", 1), ("ga3p", 2), ("s030", 1), ("s111", 2), ("g3", 3)):
    for g in (1, 2, 3):
        if g == 3 and s in ("ga2e", "ga4e", "ga3p", "ga2c", "ga2m") or g == 2 and s == "g3":
            continue
        # every multivector of grade g; for blades this is the exponential
        Case(P, f"exp{g}_{s}", s, [Full("x", g, g), T], OUT, requires=REQ, weight=w)
        Case(P, f"expd{g}_{s}", s, [Full("x", g, g)], OUTD, weight=w)
for s in ("ga3e", "ga1m", "ga1c", "ga2p"):
    for k in ("vec", "cb1", "cbn", "cb21", "ub1", "ub12", "nb21", "dv", "db", "ps", "du"):
        if s != "ga3e" and k in ("du", "vec"):
            continue
        m = "1.0 * " if k in ("ub1", "ub12", "nb21", "du", "ps") else ""
        Case(P, f"exp_{s}_{k}", s, [operand(k, "x", 3), T], [(m + "exp(x, t)", OUT[0][1])], requires=REQ, weight=.6)
        if m == "":
            Case(P, f"expd_{s}_{k}", s, [operand(k, "x", 3)], OUTD, weight=.6)
# scalars
SC = lambda E: E.s(S.s_fun("exp", E.x.get(0)))
for k in ("sc", "nat"):
    Case(P, f"scalar_{k}", "ga3e", [operand(k, "x", 3), T], [("exp(x, t)", SC), ("exp(x)", SC)], weight=.5)
Case(P, "scalar_ic", "ga3e", [operand("ic", "x", 3), T], [("1.0 * exp(x, t)", SC), ("1.0 * exp(x)", SC)], weight=.5)
# exp(B) exp(-B) = 1
for s, g, w in (("ga3e", 2, 2), ("ga2p", 2, 2), ("ga1m", 1, 2), ("ga2e", 1, 1)):
    Case(P, f"inverse{g}_{s}", s, [operand("cb21" if g == 2 else "cb1", "x", 3 if s != "ga2e" else 2)], [("!vf_put(@, gp(exp(x), exp(-x)));", lambda E: ex(E, E.x, DEF).gp(ex(E, -E.x, DEF)))], weight=w)
# translators and motors: sums of null blades known at compile time
for s, n in (("ga2c", 4), ("ga2p", 3), ("ga3p", 4), ("s111", 3)):
    d = n - 2 if s == "ga2c" else n - 1
    Case(P, f"translator_{s}", s, [Operand("x", "(" + " + ".join(f"${k} * e(c<{k + 1}>)" for k in range(d)) + f") ^ e(c<{n}>)",
                                           lambda E, r, i, q, d=d, n=n: sum((E.e(k + 1, n) * r[k] for k in range(d)), E.s(0)), real=d), T],
         OUT + OUTD, requires=REQ, weight=1)
# overloads with an explicit metric, with or without a tolerance
W = lambda m: with_space(m, "s111")
for k in ("cb1", "cbn", "cb21", "dv", "db", "vec"):
    Case(P, f"m_{k}", "ga3e", [operand(k, "x", 3), T], [(f"exp(x, t, {M111})", lambda E: ex(E, W(E.x), TT(E))), (f"exp(x, {M111})", lambda E: ex(E, W(E.x), DEF))], requires=REQ, weight=1)
for k in ("sc", "nat", "ic"):
    o = "1.0 * " if k == "ic" else ""
    Case(P, f"m_{k}", "ga3e", [operand(k, "x", 3), T], [(f"{o}exp(x, t, {M111})", SC), (f"{o}exp(x, {M111})", SC)], weight=.5)
