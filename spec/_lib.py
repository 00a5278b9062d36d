from gatlver.case import Case, Full, Operand, SpecOutcome
from gatlver.oracle import MV, grade, wedge_sign
from gatlver import sym as S
from gatlver.sym import RF


def Vec(name):
    """vector(a0, ..., an-1)"""
    o = Operand(name, None, None)
    o.isvec = True
    return o


def operand(kind, name, n):
    """The zoo of operand types.  n: dimensions of the space."""
    ix = list(range(1, n + 1))

    def vec(E, r, i, q):
        m = E.s(0)
        for k in ix:
            m = m + E.e(k) * r[k - 1]
        return m
    if kind == "full":
        return Full(name)
    if kind == "kv1":
        return Full(name, 1, 1)
    if kind == "kv2":
        return Full(name, 2, 2)
    if kind == "vec":
        return Operand(name, "vector(" + ", ".join(f"${k}" for k in range(n)) + ")", vec, real=n)
    if kind == "cb1":
        return Operand(name, "$0 * e(c<1>)", lambda E, r, i, q: E.e(1) * r[0], real=1)
    if kind == "cbn":
        return Operand(name, f"$0 * e(c<{n}>)", lambda E, r, i, q: E.e(n) * r[0], real=1)
    if kind == "cb21":
        return Operand(name, f"$0 * (e(c<{n}>) ^ e(c<1>))", lambda E, r, i, q: E.e(n, 1) * r[0], real=1)
    if kind == "cb12":
        return Operand(name, "$0 * (e(c<1>) ^ e(c<2>))", lambda E, r, i, q: E.e(1, 2) * r[0], real=1)
    if kind == "ub1":
        return Operand(name, "e(c<1>)", lambda E, r, i, q: E.e(1))
    if kind == "ub12":
        return Operand(name, "e(c<1>) ^ e(c<2>)", lambda E, r, i, q: E.e(1, 2))
    if kind == "nb21":
        return Operand(name, "c<-2> * (e(c<2>) ^ e(c<1>))", lambda E, r, i, q: E.e(2, 1) * -2)
    if kind == "csum":
        return Operand(name, f"c<3> * e(c<1>) - e(c<{n}>) + c<2>", lambda E, r, i, q: E.e(1) * 3 - E.e(n) + E.s(2))
    if kind == "dv":
        return Operand(name, "$0 * e(#0)", lambda E, r, i, q: E.e(i[0]) * r[0], real=1, idx=1)
    if kind == "du":
        return Operand(name, "e(#0)", lambda E, r, i, q: E.e(i[0]), idx=1)
    if kind == "db":
        return Operand(name, "$0 * (e(#0) ^ e(#1))", lambda E, r, i, q: E.e(i[0], i[1]) * r[0], real=1, idx=2)
    if kind == "dg":
        return Operand(name, "$0 * (e(#0) * e(#1))", lambda E, r, i, q: E.e(i[0]).gp(E.e(i[1])) * r[0], real=1, idx=2)
    if kind == "mix":
        return Operand(name, "$0 + $1 * e(c<1>) + $2 * e(#0)", lambda E, r, i, q: E.s(r[0]) + E.e(1) * r[1] + E.e(i[0]) * r[2], real=3, idx=1)
    if kind == "dsum":
        return Operand(name, "$0 * e(#0) + $1 * e(#1)", lambda E, r, i, q: E.e(i[0]) * r[0] + E.e(i[1]) * r[1], real=2, idx=2)
    if kind == "uu":
        return Operand(name, "e(#0) + e(#1)", lambda E, r, i, q: E.e(i[0]) + E.e(i[1]), idx=2)
    if kind == "ud":
        return Operand(name, "c<2> * e(#0) - c<3> * (e(#1) ^ e(c<1>)) + $0 * e(c<2>)", lambda E, r, i, q: E.e(i[0]) * 2 - E.e(i[1], 1) * 3 + E.e(2) * r[0], real=1, idx=2)
    if kind == "sum":
        return Operand(name, f"$0 + $1 * e(c<1>) + $2 * (e(c<1>) ^ e(c<{n}>))", lambda E, r, i, q: E.s(r[0]) + E.e(1) * r[1] + E.e(1, n) * r[2], real=3)
    if kind == "sc":
        return Operand(name, "scalar($0)", lambda E, r, i, q: E.s(r[0]), real=1)
    if kind == "nat":
        return Operand(name, "$0", lambda E, r, i, q: E.s(r[0]), real=1)
    if kind == "ic":
        return Operand(name, "c<3>", lambda E, r, i, q: E.s(3))
    if kind == "zc":
        return Operand(name, "c<0>", lambda E, r, i, q: E.s(0))
    if kind == "ps":
        return Operand(name, "pseudoscalar()", lambda E, r, i, q: E.I)
    if kind == "qv":
        return Operand(name, f"~0 * e(c<1>) + ~1 * e(c<{n}>)", lambda E, r, i, q: E.e(1) * q[0] + E.e(n) * q[1], intg=2)
    if kind == "qfull":
        return Full(name, T="long")
    raise KeyError(kind)


def pairs(prop, pre, space, outs, kinds1, kinds2=None, skip=(), **kw):
    from gatlver.space import SP
    n = SP[space].n
    for a in kinds1:
        for b in (kinds2 or kinds1):
            if (a, b) in skip:
                continue
            Case(prop, f"{pre}_{space}_{a}_{b}", space, [operand(a, "x", n), operand(b, "y", n)], outs, weight=kw.get("weight", 0.5),
                 **{k: v for k, v in kw.items() if k != "weight"})


CONST = ["cb1", "cbn", "cb21", "ub1", "ub12", "nb21", "csum", "ps"]
DYN = ["dv", "du", "db", "mix", "dsum", "dg", "uu", "ud"]
DENSE = ["full", "vec", "kv2", "sum"]
SCAL = ["sc", "ic", "zc"]


def with_space(m, name):
    """The multivector m read in another metric space of the same dimension."""
    from gatlver.space import SP
    return MV(SP[name].o, dict(m.d))


M111 = "signed_metric_space<1, 1, 1>()"


def metric_pairs(prop, pre, fns, kinds1, kinds2=None, skip=(), requires=None, post=None, extra=(), tail="", exact=(), **kw):
    """The overloads that take the metric space as an argument: fns maps a name to a function of two multivectors; evaluated in
    the algebra ga3e (whose own metric is Euclidean) with the metric of signature (1, 1, 1)."""
    w = lambda m: with_space(m, "s111")
    for a in kinds1:
        for b in (kinds2 or kinds1):
            if (a, b) in skip:
                continue
            one = "1.0 * " if a in exact and b in exact else ""
            Case(prop, f"{pre}_{a}_{b}", "ga3e", [operand(a, "x", 3), operand(b, "y", 3)] + list(extra),
                 [(f"{one}{f}(x, y{tail}, {M111})", (lambda h: lambda E: h(E, w(E.x), w(E.y)))(h)) for f, h in fns.items()], requires=requires, weight=kw.get("weight", .5))


WI = [1, 2, 31, 32, 33, 62, 63]


def wide(kind, name):
    """Operands in 63 dimensions whose basis vectors lie on both sides of the limits of narrower integers."""
    if kind == "wv":
        return Operand(name, "$0 * e(#0)", lambda E, r, i, q: E.e(i[0]) * r[0], real=1, idx=1, dom=[WI])
    if kind == "wu":
        return Operand(name, "e(#0)", lambda E, r, i, q: E.e(i[0]), idx=1, dom=[WI])
    if kind == "wb":
        return Operand(name, "$0 * (e(#0) ^ e(#1))", lambda E, r, i, q: E.e(i[0], i[1]) * r[0], real=1, idx=2, dom=[[2, 33, 63], [1, 32, 33]])
    if kind == "ws":
        return Operand(name, "$0 * e(#0) + $1 * e(c<40>) + $2", lambda E, r, i, q: E.e(i[0]) * r[0] + E.e(40) * r[1] + E.s(r[2]), real=3, idx=1, dom=[[2, 40, 63]])
    if kind == "wc":
        return Operand(name, "$0 * (e(c<63>) ^ e(c<1>) ^ e(c<33>)) + $1 * e(c<32>)", lambda E, r, i, q: E.e(63, 1, 33) * r[0] + E.e(32) * r[1], real=2)
    if kind == "wk":
        return Operand(name, "e(c<33>) ^ e(c<32>)", lambda E, r, i, q: E.e(33, 32))
    raise KeyError(kind)


WIDE = ["wv", "wu", "wb", "ws", "wc", "wk"]


def wide_cases(prop, outs, kinds1=WIDE, kinds2=WIDE, skip=(), pre="wide", extra=(), space="s63", weight=.6, **kw):
    """The same outputs for all (pairs of) operands in 63 dimensions."""
    for a in kinds1:
        for b in kinds2 or [None]:
            if (a, b) not in skip:
                Case(prop, f"{pre}_{a}" + (f"_{b}" if b else ""), space, [wide(a, "x")] + ([wide(b, "y")] if b else []) + list(extra), outs, weight=weight, **kw)
