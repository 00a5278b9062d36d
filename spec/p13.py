"""P13: versor application is the sandwich product."""
from spec._lib import *

P = "P13"


def nz(m):
    return (m.rnorm_sqr(), {-1, 1})


def even(E, V, x):
    return V.gp(x).gp(V.rev()).scale(S.ONE / V.rnorm_sqr())


def odd(E, V, x):
    return V.gp(x.inv_()).gp(V.rev()).scale(S.ONE / V.rnorm_sqr())


def rotor(E, V, x):
    return V.gp(x).gp(V.rev())


EV = [("apply_even_versor(V, x)", lambda E: even(E, E.V, E.x))]
OD = [("apply_odd_versor(V, x)", lambda E: odd(E, E.V, E.x))]
RO = [("apply_rotor(V, x)", lambda E: rotor(E, E.V, E.x))]
NZ = lambda E: [nz(E.V)]
# general multivectors (also ones that are no versors)
for s, w in (("ga1e", .5), ("ga2e", 1), ("ga1p", .5), ("s111", 3), ("ga1m", 3), ("ga1c", 8), ("ga2p", 3), ("ga3e", 3), ("g2", 1), ("g3", 40)):
    Case(P, f"rotor_full_{s}", s, [Full("V"), Full("x")], RO, weight=w)
    if s not in ("g3", "ga1c", "ga3e", "ga1m", "s111", "ga2p"):
        Case(P, f"even_full_{s}", s, [Full("V"), Full("x")], EV, requires=NZ, weight=w)
        Case(P, f"odd_full_{s}", s, [Full("V"), Full("x")], OD, requires=NZ, weight=w)
EVEN = lambda n: Operand("V", "$0 + $1 * (e(c<1>) ^ e(c<2>))" + (" + $2 * (e(c<1>) ^ e(c<3>)) + $3 * (e(c<2>) ^ e(c<3>))" if n > 2 else ""),
                         lambda E, r, i, q: E.s(r[0]) + E.e(1, 2) * r[1] + (E.e(1, 3) * r[2] + E.e(2, 3) * r[3] if n > 2 else E.s(0)), real=4 if n > 2 else 2)
for s, n, w in (("ga2e", 2, 1), ("ga3e", 3, 2), ("ga1m", 3, 2), ("ga1c", 3, 3), ("ga2p", 3, 2), ("s111", 3, 2), ("s030", 3, 2)):
    Case(P, f"even_{s}", s, [EVEN(n), Full("x")], EV, requires=NZ, weight=w)
    Case(P, f"vec_{s}", s, [Full("V", 1, 1), Full("x")], OD, requires=NZ, weight=w)
for s, w in (("ga4e", 6), ("ga3p", 6), ("ga2c", 6), ("ga2m", 6)):
    Case(P, f"vec1_{s}", s, [Full("V", 1, 1), Full("x", 1, 2)], OD, requires=NZ, weight=w)
Case(P, "vec1_ga3c", "ga3c", [Full("V", 1, 1), Full("x", 1, 1)], OD, requires=NZ, weight=3)
# every operand shape
KV = ["vec", "cb1", "cbn", "cb21", "ub1", "ub12", "nb21", "dv", "db", "ps", "kv1", "sc", "ic", "nat", "du", "dg"]
KX = ["vec", "cb1", "cb21", "ub1", "dv", "db", "sum", "sc", "ic", "nat", "mix", "ps", "full"]
for s in ("ga3e", "ga1m"):
    for kv in KV:
        for kx in KX:
            if kv in ("nat", "sc", "ic") and kx not in ("vec", "sc", "nat", "sum", "dv") or kv == "du" and kx in ("mix", "db") or s == "ga1m" and kx in ("db", "nat", "mix", "ub1", "sc") or kv == "dg" and kx not in ("vec", "dv", "sum", "cb1"):
                continue
            ex = kv in ("ub1", "ub12", "nb21", "ps", "ic", "du") and kx in ("ub1", "ic", "ps", "du")
            m = "1.0 * " if ex else ""
            f = [(m + o[0], o[1]) for o in (EV + RO if kv in ("cb21", "ub12", "nb21", "db", "sc", "ic", "nat", "dg") else OD)]
            f1, f2 = f[:1], f[1:]
            Case(P, f"z_{s}_{kv}_{kx}", s, [operand(kv, "V", 3), operand(kx, "x", 3)], f, requires=NZ if kv not in ("ub1", "ub12", "nb21", "ps", "ic") else None, weight=.6)
# versors: composition, grade preservation, invariance of the scalar product
for s, w in (("ga2e", 2), ("ga1m", 3), ("ga3e", 4)):
    Case(P, f"comp_{s}", s, [Full("u", 1, 1), Full("w", 1, 1), Full("x", 1, 1)],
         [("!vf_put(@, apply_odd_versor(u, apply_odd_versor(w, x)));", lambda E: odd(E, E.u, odd(E, E.w, E.x)).clean()),
          ("!vf_put(@, apply_even_versor(gp(u, w), x));", lambda E: odd(E, E.u, odd(E, E.w, E.x)))], requires=lambda E: [nz(E.u), nz(E.w)], weight=w)
Case(P, "inv_ga3e", "ga3e", [Full("u", 1, 1), Full("x", 1, 1), Full("y", 1, 1)],
     [("!vf_put(@, sp(apply_odd_versor(u, x), apply_odd_versor(u, y)));", lambda E: E.s(E.x.sprod(E.y)))], requires=lambda E: [nz(E.u)], weight=2)
# overloads with an explicit metric
W = lambda m: with_space(m, "s111")
for kv in ("nat", "sc", "ic", "cb1", "cb12", "db", "kv1"):
    for kx in ("nat", "sc", "ic", "cb1", "db", "vec"):
        o = "1.0 * " if kv == "ic" and kx == "ic" else ""
        Case(P, f"m_{kv}_{kx}", "ga3e", [operand(kv, "V", 3), operand(kx, "x", 3)], [(f"{o}apply_even_versor(V, x, {M111})", lambda E: even(E, W(E.V), W(E.x))),
             (f"{o}apply_odd_versor(V, x, {M111})", lambda E: odd(E, W(E.V), W(E.x))), (f"apply_rotor(V, x, {M111})", lambda E: rotor(E, W(E.V), W(E.x)))] [:None if kv in ("nat", "sc", "ic") else 3],
             requires=lambda E: [nz(W(E.V))], weight=.6)
wv = lambda n: Operand(n, "$0 * e(#0)", lambda E, r, i, q: E.e(i[0]) * r[0], real=1, idx=1, dom=[WI])
for k in ("wv", "wu", "wb", "wc", "wk"):
    Case(P, f"wide_{k}", "s63", [wv("V"), wide(k, "x")], [("apply_odd_versor(V, x)", lambda E: odd(E, E.V, E.x)), ("apply_even_versor(V, x)", lambda E: even(E, E.V, E.x)), ("apply_rotor(V, x)", lambda E: rotor(E, E.V, E.x))],
         requires=lambda E: [(E.r["V"][0], {-1, 1})], weight=.8)
