"""P08: basis blades known only at run time behave as the ones known at compile time."""
from spec._lib import *

P = "P08"


def X(kind, name, n):
    if kind == "dt":
        return Operand(name, "$0 * (e(#0) ^ e(#1) ^ e(#2))", lambda E, r, i, q: E.e(*i) * r[0], real=1, idx=3)
    if kind == "cd":
        return Operand(name, "$0 * (e(c<2>) ^ e(#0))", lambda E, r, i, q: E.e(2, i[0]) * r[0], real=1, idx=1)
    if kind == "dc":
        return Operand(name, "e(#0) ^ (c<-3> * e(c<1>))", lambda E, r, i, q: E.e(i[0], 1) * -3, idx=1)
    if kind == "duu":
        return Operand(name, "e(#0) ^ e(#1)", lambda E, r, i, q: E.e(*i), idx=2)
    if kind == "dsw":
        return Operand(name, "$0 * (e(#0) ^ e(#1)) + $1 * (e(#1) ^ e(#0))", lambda E, r, i, q: E.e(*i) * (r[0] - r[1]), real=2, idx=2)
    if kind == "duv":
        return Operand(name, "e(#0) + $0 * e(c<1>) + c<2> * e(c<2>)", lambda E, r, i, q: E.e(i[0]) + E.e(1) * r[0] + E.e(2) * 2, real=1, idx=1)
    if kind == "dnn":
        return Operand(name, "-(e(#0) - $0 * e(#1))", lambda E, r, i, q: E.e(i[1]) * r[0] - E.e(i[0]), real=1, idx=2)
    if kind == "dml":
        return Operand(name, "$0 * (e(#0) * e(#1)) + $1", lambda E, r, i, q: E.e(i[0]).gp(E.e(i[1])) * r[0] + E.s(r[1]), real=2, idx=2)
    if kind == "dps":
        return Operand(name, "pseudoscalar() * e(#0)", lambda E, r, i, q: E.I.gp(E.e(i[0])), idx=1)
    return operand(kind, name, n)


# unary operations
U = [("-x", lambda E: -E.x), ("reverse(x)", lambda E: E.x.rev()), ("involute(x)", lambda E: E.x.inv_()), ("conjugate(x)", lambda E: E.x.conj()), ("~x", lambda E: E.x.rev()),
     ("rnorm_sqr(x)", lambda E: E.s(E.x.rnorm_sqr())), ("take_grade(x, c<1>)", lambda E: E.x.grades(1)), ("take_grade(x, c<2>)", lambda E: E.x.grades(2)), ("x + x", lambda E: E.x * 2),
     ("x - x", lambda E: E.s(0)), ("gp(x, x)", lambda E: E.x.gp(E.x)), ("x ^ x", lambda E: E.x ^ E.x), ("x * reverse(x)", lambda E: E.x.gp(E.x.rev())), ("c<3> * x - x", lambda E: E.x * 2)]
D = [("dual(x)", lambda E: E.x.dual()), ("undual(x)", lambda E: E.x.undual()), ("rp(x, pseudoscalar())", lambda E: E.x)]
B = {"gp": ("gp(x, y)", lambda E: E.x.gp(E.y)), "op": ("x ^ y", lambda E: E.x ^ E.y), "lcont": ("lcont(x, y)", lambda E: E.x.lcont(E.y)), "rcont": ("rcont(x, y)", lambda E: E.x.rcont(E.y)),
     "dot": ("dot(x, y)", lambda E: E.x.dot(E.y)), "hip": ("hip(x, y)", lambda E: E.x.hip(E.y)), "sp": ("sp(x, y)", lambda E: E.x.sp_(E.y)), "add": ("x + y", lambda E: E.x + E.y), "sub": ("x - y", lambda E: E.x - E.y),
     "rp": ("rp(x, y)", lambda E: E.x.rp(E.y))}
NEW = ["dt", "cd", "dc", "duu", "dsw", "duv", "dnn", "dml", "dps"]
for s, n, dual in (("ga3e", 3, 1), ("s111", 3, 0), ("ga2p", 3, 0), ("ga1c", 3, 0), ("s030", 3, 1), ("ga4e", 4, 1)):
    for k in NEW + ["dv", "du", "db", "dg", "mix", "dsum", "uu", "ud"]:
        if s == "ga4e" and k in ("dml", "dsum", "dnn", "dt", "ud", "uu"):
            continue
        if s == "ga1c" and k in ("dps",):
            continue
        Case(P, f"unary_{s}_{k}", s, [X(k, "x", n)], U + (D if dual else []), weight=4 if s == "ga1c" else 1)
for s, ks in (("ga3e", list(B)), ("s111", ["gp", "op", "lcont", "rcont", "dot", "hip", "sp"]), ("ga1c", ["gp", "op", "add"])):
    for a in NEW:
        for b in ("dv", "full", "cb21", "duv", "cd", "nb21"):
            if s == "ga1c" and (a == "dps" or b in ("full",)):
                continue
            Case(P, f"bin_{s}_{a}_{b}", s, [X(a, "x", 3), X(b, "y", 3)], [B[k] for k in ks], weight=3 if s == "ga1c" else 1.2)
            if s == "ga3e":
                Case(P, f"nib_{s}_{b}_{a}", s, [X(b, "x", 3), X(a, "y", 3)], [B[k] for k in ks], weight=3 if s == "ga1c" else 1.2)
# run-time indices on both sides of the limits of narrower integers
wide_cases(P, [u for u in U if "take_grade" not in u[0]] + [D[0], D[1]], ["wv", "wu", "wb", "ws"], None, weight=1)
wide_cases(P, [B[k] for k in ("gp", "op", "lcont", "rcont", "dot", "hip", "sp", "add", "sub")], ["wv", "wu", "wb", "ws"], ["wu", "wb", "wc"], pre="widebin", weight=1)
