"""P10: grade(), largest_grade(), take_grade() and take_largest_grade()."""
from spec._lib import *
from fractions import Fraction

P = "P10"
DEF = RF.const(Fraction(1.0e-8))


def big(E, v, t):
    """The coefficient is not zero up to the tolerance t >= 0."""
    return E.lt(t, v) or E.lt(v, -t)


def gr(E, m, t):
    g = None
    for b, v in sorted(m.d.items()):
        if grade(b) == g:
            continue
        if v.is_zero() or not big(E, v, t):
            continue
        if g is not None:
            return -1
        g = grade(b)
    return -2 if g is None else g


def lg(E, m, t):
    for b, v in sorted(m.d.items(), key=lambda x: -grade(x[0])):
        if not v.is_zero() and big(E, v, t):
            return grade(b)
    return -2


def tol(E):
    return E.r["t"][0]


T = Operand("t", "$0", lambda E, r, i, q: E.s(r[0]), real=1)
REQ = lambda E: [(tol(E), {0, 1})]
G = ("(ga::grade_t)grade(x, t)", lambda E: E.s(gr(E, E.x, tol(E))))
GD = ("(ga::grade_t)grade(x)", lambda E: E.s(gr(E, E.x, DEF)))
L = ("(ga::grade_t)largest_grade(x, t)", lambda E: E.s(lg(E, E.x, tol(E))))
LD = ("(ga::grade_t)largest_grade(x)", lambda E: E.s(lg(E, E.x, DEF)))
TL = ("take_largest_grade(x, t)", lambda E: E.x.grades(lg(E, E.x, tol(E))))
TLD = ("take_largest_grade(x)", lambda E: E.x.grades(lg(E, E.x, DEF)))


def grs(space, op, w=1.0, **kw):
    nm = kw.pop("nm")
    Case(P, f"largest_{space}_{nm}", space, [op, T], [L], requires=REQ, weight=w, **kw)
    if w >= 6:
        kw["tier"] = "thorough"
    Case(P, f"grade_{space}_{nm}", space, [op, T], [G], requires=REQ, weight=w, **kw)
    Case(P, f"takelargest_{space}_{nm}", space, [op, T], [TL], requires=REQ, weight=w, **kw)
    Case(P, f"default_{space}_{nm}", space, [op], [GD], weight=w, **kw)
    Case(P, f"defaultlargest_{space}_{nm}", space, [op], [LD, TLD], weight=w, **kw)


for s, op, w, nm in (("ga1e", Full("x"), .5, "full"), ("ga2e", Full("x"), 1, "full"), ("ga3e", Full("x"), 6, "full"), ("ga3e", Full("x", 1, 2), 3, "k12"), ("ga3e", Full("x", 0, 1), 1, "k01"), ("ga3e", Full("x", 2, 3), 1, "k23"), ("ga4e", Full("x", 3, 4), 3, "k34"),
                     ("ga4e", Full("x", 2, 2), 3, "k2"), ("ga2c", Full("x", 1, 1), 3, "k1")):
    grs(s, op, w, nm=nm)
for k in ("vec", "cb1", "cbn", "cb21", "ub1", "ub12", "nb21", "dv", "db", "sum", "sc", "ps"):
    grs("ga3e", operand(k, "x", 3), .4, nm=k)
mix = operand("mix", "x", 3)
mix.dom = [[2, 3]]
grs("ga3e", mix, .6, nm="mix")
dd = Operand("x", "$0 * e(#0) + $1 * (e(#0) ^ e(#1)) + $2 * (e(#0) ^ e(#1) ^ e(#2))", lambda E, r, i, q: E.e(i[0]) * r[0] + E.e(i[0], i[1]) * r[1] + E.e(*i) * r[2], real=3, idx=3)
grs("ga3e", dd, 2, nm="dyn123")
g3 = Operand("x", "$0 * (e(#0) * e(#1) * e(#2))", lambda E, r, i, q: E.e(i[0]).gp(E.e(i[1])).gp(E.e(i[2])) * r[0], real=1, idx=3)
grs("ga3e", g3, 1, nm="dyngp")
# the k-grade part, for a grade known at compile time or only at run time (including grades that do not exist)
for s, n, kinds in (("ga3e", 3, ("full", "kv2", "vec", "cb1", "cb21", "ub1", "ub12", "csum", "dv", "du", "db", "mix", "dsum", "uu", "ud", "sum", "sc", "ps", "qv")), ("ga3c", 5, ("full", "vec", "csum", "db")), ("ga5e", 5, ("full", "mix"))):
    for k in kinds:
        Case(P, f"take_const_{s}_{k}", s, [operand(k, "x", n)], [(f"take_grade(x, c<{g}>)", (lambda g: lambda E: E.x.grades(g))(g)) for g in range(0, n + 2)], weight=.7)
        Case(P, f"take_run_{s}_{k}", s, [operand(k, "x", n), Operand("k", "(int)#0", None, idx=1, dom=[range(-2, n + 2)])],
             [("take_grade(x, k)", lambda E: E.x.grades(E.i["k"][0]))], weight=.8)
for o, nm in ((dd, "dyn123"), (g3, "dyngp")):
    Case(P, f"take_const_{nm}", "ga3e", [o], [(f"take_grade(x, c<{g}>)", (lambda g: lambda E: E.x.grades(g))(g)) for g in range(0, 5)], weight=1)
    Case(P, f"take_run_{nm}", "ga3e", [o, Operand("k", "(int)#0", None, idx=1, dom=[range(-2, 5)])], [("take_grade(x, k)", lambda E: E.x.grades(E.i["k"][0]))], weight=1.5)
Case(P, "take_native", "ga3e", [operand("nat", "x", 3), Operand("k", "(int)#0", None, idx=1, dom=[range(-2, 4)])],
     [("take_grade(x, k)", lambda E: E.x.grades(E.i["k"][0])), ("take_grade(x, c<0>)", lambda E: E.x), ("take_grade(x, c<1>)", lambda E: E.s(0))])
# grade projection is linear and complete
Case(P, "decompose_ga3e", "ga3e", [Full("x")], [("take_grade(x, c<0>) + take_grade(x, c<1>) + take_grade(x, c<2>) + take_grade(x, c<3>)", lambda E: E.x)], weight=1)
# native scalars are scalars
n_ = operand("nat", "x", 3)
Case(P, "native_grade", "ga3e", [n_, T], [G, L, TL], requires=REQ)
Case(P, "native_grade_default", "ga3e", [n_], [GD, LD, TLD])
# the interpretation of the result
FL = ("(int)grade(x, t).flag()", lambda E: E.s(min(gr(E, E.x, tol(E)), 0)))
for k in ("vec", "cb1", "ub1", "ub12", "sum", "dv", "db", "sc", "ps", "csum", "full"):
    Case(P, f"flag_{k}", "ga3e" if k != "full" else "ga2e", [operand(k, "x", 3), T] if k not in ("full",) else [Full("x"), T], [FL], requires=REQ, weight=.6)
# 63 dimensions
wide_cases(P, [(f"take_grade(x, c<{g}>)", (lambda g: lambda E: E.x.grades(g))(g)) for g in (0, 1, 2, 3, 32, 63)], kinds2=None)
wide_cases(P, [("take_grade(x, k)", lambda E: E.x.grades(E.i["k"][0]))], kinds2=None, pre="widerun", extra=[Operand("k", "(int)#0", None, idx=1, dom=[[-1, 0, 1, 2, 3, 31, 32, 33, 63, 64, 65]])])
hi = lambda k: Operand(f"x{k}", f"$0 * pseudoscalar(signed_metric_space<{k}, 0, 0>())", (lambda k: lambda E, r, i, q: MV(E.sp, {(1 << k) - 1: r[0]}))(k), real=1)
for k in (31, 32, 33, 62, 63):
    Case(P, f"high{k}", "s63", [hi(k), T], [(f"(ga::grade_t)grade(x{k}, t)", (lambda k: lambda E: E.s(gr(E, E.v[f"x{k}"], tol(E))))(k)), (f"(ga::grade_t)largest_grade(x{k}, t)", (lambda k: lambda E: E.s(lg(E, E.v[f"x{k}"], tol(E))))(k)),
         (f"take_grade(x{k}, c<{k}>)", (lambda k: lambda E: E.v[f"x{k}"])(k)), (f"take_grade(x{k}, c<{k - 32 if k > 32 else 1}>)", lambda E: E.s(0))], requires=REQ)
    Case(P, f"highrun{k}", "s63", [hi(k), Operand("k", "(int)#0", None, idx=1, dom=[[0, 1, 30, 31, 32, 33, 61, 62, 63]])], [(f"take_grade(x{k}, k)", (lambda k: lambda E: E.v[f"x{k}"].grades(E.i["k"][0]))(k))])
