"""P22: the predicates is_zero, is_null and is_unit decide exactly what they say, up to the tolerance."""
from spec._lib import *
from fractions import Fraction

P = "P22"
DEF = RF.const(Fraction(1.0e-8))


def tol(E):
    return (E.r["t"] or E.q["t"])[0]


def small(E, v, t):
    return v.is_zero() or (E.le(v, t) and E.le(-t, v))


def zero(E, m, t):
    for b, v in m.d.items():
        if not small(E, v, t):
            return 0
    return 1


def unit(E, m, t):
    n = m.rnorm_sqr()
    if E.neg(n):
        n = -n
    return int(small(E, n - RF.const(1), t))


T = Operand("t", "$0", lambda E, r, i, q: E.s(r[0]), real=1)
TI = Operand("t", "~0", lambda E, r, i, q: E.s(q[0]), intg=1)   # integral coefficients are compared with an integral tolerance
REQ = lambda E: [(tol(E), {0, 1})]
for s, op, w, nm in [("ga1e", Full("x"), .5, "full"), ("ga2e", Full("x"), 1, "full"), ("ga3e", Full("x"), 3, "full"), ("ga1m", Full("x"), 3, "full"), ("ga1c", Full("x"), 3, "full"), ("ga2p", Full("x"), 3, "full"),
                     ("ga3c", Full("x", 1, 1), 2, "k1"), ("ga4e", Full("x", 2, 2), 2, "k2"), ("s121", Full("x", 2, 2), 2, "k2")] + \
                    [("ga3e", operand(k, "x", 3), .5, k) for k in ("vec", "cb1", "cb21", "ub1", "nb21", "csum", "dv", "du", "db", "sum", "sc", "ps", "ic", "zc")] + \
                    [("s111", operand(k, "x", 3), .5, k) for k in ("vec", "cbn", "dv", "db", "sum")]:
    T_ = TI if nm in ("ub1", "nb21", "csum", "du", "ps", "ic", "zc", "cbn_") else T
    Case(P, f"zero_{s}_{nm}", s, [op, T_], [("is_zero(x, t)", lambda E: E.s(zero(E, E.x, tol(E))))], requires=REQ, weight=w)
    Case(P, f"zerod_{s}_{nm}", s, [op], [("is_zero(x)", lambda E: E.s(zero(E, E.x, DEF)))], weight=w)
    Case(P, f"null_{s}_{nm}", s, [op, T_], [("is_null(x, t)", lambda E: E.s(int(small(E, E.x.rnorm_sqr(), tol(E)))))], requires=REQ, weight=w)
    Case(P, f"unit_{s}_{nm}", s, [op, T_], [("is_unit(x, t)", lambda E: E.s(unit(E, E.x, tol(E))))], requires=REQ, weight=w)
for k in ("wv", "wb", "wc"):
    Case(P, f"wide_{k}", "s63", [wide(k, "x"), T], [("is_zero(x, t)", lambda E: E.s(zero(E, E.x, tol(E)))), ("is_null(x, t)", lambda E: E.s(int(small(E, E.x.rnorm_sqr(), tol(E))))), ("is_unit(x, t)", lambda E: E.s(unit(E, E.x, tol(E))))], requires=REQ)
