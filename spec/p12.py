"""P12: reverse norm, inverse, quotient and unit."""
from spec._lib import *

P = "P12"


def nz(E, m):
    return (m.rnorm_sqr(), {-1, 1})


def sqrt(E, v):
    """Mathematical square root of a value known to be non-negative on the path."""
    return S.s_sqrt(v)


def unit(E, x):
    return x.scale(S.ONE / S.s_sqrt(S.s_abs(x.rnorm_sqr())))


NS = [("rnorm_sqr(x)", lambda E: E.s(E.x.rnorm_sqr()))]
NR = [("rnorm(x)", lambda E: E.s(S.s_sqrt(E.x.rnorm_sqr())))]
IV = [("inv(x)", lambda E: E.x.versor_inverse())]
TW = [("gp(x, inv(x))", lambda E: E.s(1)), ("gp(inv(x), x)", lambda E: E.s(1))]
UN = [("unit(x)", lambda E: unit(E, E.x)), ]
POS = lambda E: [(E.x.rnorm_sqr(), {1})]
NZ = lambda E: [nz(E, E.x)]
for s, w in (("ga1e", .5), ("ga2e", .7), ("ga3e", 1), ("ga4e", 2), ("ga1m", 1), ("ga2m", 2), ("ga1c", 2), ("ga2p", 1), ("ga2h", 1), ("s111", 1), ("s030", 1), ("s022", 2), ("g3", 2)):
    Case(P, f"nsqr_full_{s}", s, [Full("x")], NS, weight=w)
    if s not in ("s030",):
        Case(P, f"norm_full_{s}", s, [Full("x")], NR, requires=POS, weight=w)
    Case(P, f"inv_full_{s}", s, [Full("x")], IV, requires=NZ, weight=w)
    Case(P, f"unit_full_{s}", s, [Full("x")], UN, requires=NZ, weight=w)
for k in ("kv1", "kv2", "vec", "cb1", "cbn", "cb21", "ub1", "ub12", "nb21", "csum", "dv", "du", "db", "sum", "sc", "ic", "ps", "dsum", "mix", "dg"):
    for s in ("ga3e", "ga1m", "ga1c"):
        o = operand(k, "x", 3)
        F = (lambda outs: [("1.0 * " + a, b) for a, b in outs]) if k in ("ub1", "ub12", "nb21", "csum", "du", "ic", "ps") else (lambda outs: outs)   # integral coefficients cannot hold fractions
        exact = k in ("ub1", "ub12", "nb21", "csum", "du", "ic", "ps")
        null = k in ("csum",) and s == "ga1m"
        Case(P, f"nsqr_{s}_{k}", s, [o], NS, weight=.4)
        nullblade = s == "ga1c" and k in ("cbn", "cb21", "ub12", "nb21", "du")
        if nullblade or null:
            continue
        if k not in ("du", "dg") or s == "ga3e":
            Case(P, f"inv_{s}_{k}", s, [o], F(IV), requires=NZ, weight=.4)
            Case(P, f"unit_{s}_{k}", s, [o], F(UN), requires=NZ, weight=.4)
        if s == "ga3e" or k in ("kv1", "vec", "cb1", "sum", "sc", "ic", "dv"):
            Case(P, f"norm_{s}_{k}", s, [o], F(NR), requires=POS, weight=.4)
for k in ("nat",):
    Case(P, f"native", "ga3e", [operand("nat", "x", 3)], [("rnorm_sqr(x)", lambda E: E.s(E.x.rnorm_sqr())), ("rnorm(x)", lambda E: E.s(S.s_abs(E.x.get(0)))),
         ("inv(x)", lambda E: E.x.versor_inverse()), ("unit(x)", lambda E: unit(E, E.x))], requires=NZ)
# versors: the inverse is two-sided
for s, w in (("ga2e", 1), ("ga3e", 2), ("ga1m", 1), ("ga1c", 2), ("ga2c", 3), ("s111", 1), ("ga2p", 1)):
    Case(P, f"vec_{s}", s, [Full("x", 1, 1)], TW, requires=NZ, weight=w)
    Case(P, f"versor_{s}", s, [Full("u", 1, 1), Full("w", 1, 1)], [("!auto x = gp(u, w); vf_put(@, gp(x, inv(x)));", lambda E: E.s(1)), ("!vf_put(@, gp(inv(x), x));", lambda E: E.s(1))],
         requires=lambda E: [nz(E, E.u), nz(E, E.w)], weight=w)
Case(P, "blade_ga3e", "ga3e", [Full("u", 1, 1), Full("w", 1, 1)], [("!auto x = u ^ w; vf_put(@, gp(x, inv(x)));", lambda E: E.s(1))],
     requires=lambda E: [nz(E, E.u ^ E.w)], weight=1)
# quotients
for s in ("ga3e", "ga1m", "ga1c"):
    for a, b in [("full", "full"), ("kv1", "kv1"), ("vec", "full"), ("cb1", "kv1"), ("full", "cb1"), ("dv", "kv1"), ("kv1", "cb1"), ("sc", "full"), ("sum", "sum"), ("nat", "kv1"), ("ic", "full"), ("full", "ub1"), ("ub12", "sum"), ("full", "ps"), ("mix", "sum")]:
        Case(P, f"igp_{s}_{a}_{b}", s, [operand(a, "x", 3), operand(b, "y", 3)], [("igp(x, y)", lambda E: E.x.gp(E.y.versor_inverse()))], requires=lambda E: [nz(E, E.y)], weight=.8)
for a in ("full", "kv1", "vec", "cb1", "ub1", "csum", "dv", "mix", "sum", "sc", "ic", "nat", "qv"):
    for b in ("sc", "nat", "ic"):
        if a == "nat" and b == "nat" or a == "qv" and b == "ic" or a in ("ub1", "csum", "ic") and b == "ic":
            continue
        Case(P, f"quo_{a}_{b}", "ga3e", [operand(a, "x", 3), operand(b, "y", 3)], [("x / y", lambda E: E.x.gp(E.y.versor_inverse())), ("igp(x, y)", lambda E: E.x.gp(E.y.versor_inverse()))],
             requires=lambda E: [nz(E, E.y)], weight=.5)
# overloads with an explicit metric
W = lambda m: with_space(m, "s111")
NZM = lambda E: [nz(E, W(E.x))]
for k in ("full", "nat", "sc", "ic", "cb1", "cb12", "dv"):
    o = "1.0 * " if k == "ic" else ""
    Case(P, f"m_{k}", "ga3e", [operand(k, "x", 3)], [(f"rnorm_sqr(x, {M111})", lambda E: E.s(W(E.x).rnorm_sqr())), (f"{o}inv(x, {M111})", lambda E: W(E.x).versor_inverse()),
         (f"{o}unit(x, {M111})", lambda E: unit(E, W(E.x)))], requires=NZM, weight=.7)
    if k == "cb12":
        continue        # always negative
    Case(P, f"mnorm_{k}", "ga3e", [operand(k, "x", 3)], [(f"{o}rnorm(x, {M111})", lambda E: E.s(S.s_sqrt(W(E.x).rnorm_sqr())))], requires=lambda E: [(W(E.x).rnorm_sqr(), {1})], weight=.7)
metric_pairs(P, "igpm", {"igp": lambda E, x, y: x.gp(y.versor_inverse())}, ["nat", "sc", "ic", "cb1", "db", "kv1"], requires=lambda E: [nz(E, W(E.y))], exact=("ic",), weight=.6)
wide_cases(P, NS, kinds2=None, pre="widen")
wide_cases(P, NR + IV + TW + UN, ["wv", "wb"], None, requires=POS)
wide_cases(P, NR + IV + UN, ["wc"], None, requires=POS)
