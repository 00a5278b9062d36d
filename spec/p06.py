"""P06: addition, subtraction, negation, scaling and division by a scalar are the vector-space operations."""
from spec._lib import *

P = "P06"
AS = [("x + y", lambda E: E.x + E.y), ("x - y", lambda E: E.x - E.y), ("y - x", lambda E: E.y - E.x)]
UN = [("-x", lambda E: -E.x), ("+x", lambda E: E.x), ("x + x", lambda E: E.x * 2), ("x - x", lambda E: E.x - E.x), ("x - 2 * x + c<3> * x", lambda E: E.x * 2)]
for s, w in (("ga1e", .5), ("ga2e", 1), ("ga3e", 2), ("ga3c", 3), ("ga3m", 3), ("ga3p", 2)):
    Case(P, f"add_full_{s}", s, [Full("x"), Full("y")], AS + UN, weight=w)
ZOO = ["full", "kv1", "kv2", "vec", "cb1", "cbn", "cb21", "ub1", "ub12", "nb21", "csum", "dv", "du", "db", "dg", "mix", "dsum", "uu", "ud", "sum", "sc", "ic", "zc", "ps", "qv"]
pairs(P, "add", "ga3e", AS, ZOO, weight=.6)
pairs(P, "add", "ga2c", AS, ["full", "vec", "cbn", "ub12", "csum", "dv", "db", "mix"], weight=.6)
n = 3
for k in ZOO:
    Case(P, f"unary_ga3e_{k}", "ga3e", [operand(k, "x", n)], UN, weight=.5)
R0 = Operand("t", "$0", lambda E, r, i, q: E.s(r[0]), real=1)


def t(E):
    return E.r["t"][0]


for k in ("full", "vec", "cb1", "cb21", "ub12", "csum", "dv", "db", "mix", "dsum", "ud", "sum", "ps"):
    Case(P, f"scale_ga3e_{k}", "ga3e", [operand(k, "x", n), R0],
         [("t * x", lambda E: E.x * t(E)), ("x * t", lambda E: E.x * t(E)), ("c<3> * x", lambda E: E.x * 3), ("x * c<-2>", lambda E: E.x * -2), ("2.5 * x", lambda E: E.x * RF.const(5) * RF.const(2).inv()),
          ("x + t", lambda E: E.x + t(E)), ("t - x", lambda E: -E.x + t(E)), ("x - t", lambda E: E.x - t(E)), ("t + x", lambda E: E.x + t(E))], weight=1)
    Case(P, f"div_ga3e_{k}", "ga3e", [operand(k, "x", n), R0], [("x / t", lambda E: E.x.scale(RF.const(1) / t(E))), ("(x / t) * t", lambda E: E.x),
         ("x / scalar(t)", lambda E: E.x.scale(RF.const(1) / t(E))), ("x / 4.0", lambda E: E.x.scale(RF.const(4).inv()))],
         requires=lambda E: [(t(E), {-1, 1})], weight=1)
# longer sums: association, reordering, repeated components
Case(P, "sum3_ga3e", "ga3e", [operand("full", "x", n), operand("sum", "y", n), operand("csum", "z", n)],
     [("x + y + z", lambda E: E.x + E.y + E.z), ("x + (y + z)", lambda E: E.x + E.y + E.z), ("z - y - x", lambda E: E.z - E.y - E.x), ("z - (y - x)", lambda E: E.z - E.y + E.x),
      ("2.0 * (x + y) - x * 3.0", lambda E: E.y * 2 - E.x)], weight=2)
Case(P, "sum3_dyn_ga3e", "ga3e", [operand("dv", "x", n), operand("db", "y", n), operand("mix", "z", n)],
     [("x + y + z", lambda E: E.x + E.y + E.z), ("z - (y - x)", lambda E: E.z - E.y + E.x), ("x + x + y - z + x", lambda E: E.x * 3 + E.y - E.z), ("-(x - y) + z", lambda E: E.y - E.x + E.z)], weight=3)
Case(P, "sum4_const_ga3e", "ga3e", [operand("cb1", "x", n), operand("cbn", "y", n), operand("cb21", "z", n), operand("ub1", "w", n)],
     [("x + y + z + w", lambda E: E.x + E.y + E.z + E.w), ("w + z + y + x", lambda E: E.x + E.y + E.z + E.w), ("(w - z) - (y - x) + w + w", lambda E: E.w * 3 - E.z - E.y + E.x),
      ("x + w - x", lambda E: E.w), ("w - x - w", lambda E: -E.x)], weight=1)
wide_cases(P, AS)
wide_cases(P, UN, kinds2=None)
# like terms whose coefficients are compile-time constants of every kind: integers, fractions, surds, and run-time values
_F = lambda a, b=1: (lambda: RF.const(a) / RF.const(b))
_Q = {"c<0>": _F(0), "c<1>": _F(1), "c<-1>": _F(-1), "c<2>": _F(2), "c<-3>": _F(-3), "(c<1> / c<3>)": _F(1, 3), "(c<-1> / c<2>)": _F(-1, 2), "(c<2> / c<3>)": _F(2, 3), "(c<-5> / c<4>)": _F(-5, 4), "(c<1> / c<5>)": _F(1, 5),
      "sqrt(c<2>)": lambda: S.s_sqrt(RF.const(2)), "(c<3> * sqrt(c<2>))": lambda: S.s_sqrt(RF.const(2)) * 3, "(c<2> / c<3> * sqrt(c<2>))": lambda: S.s_sqrt(RF.const(2)) * RF.const(2) / RF.const(3), "sqrt(c<3>)": lambda: S.s_sqrt(RF.const(3))}
for a in _Q:
    Case(P, "const_" + "".join(ch if ch.isalnum() or ch == "-" else "_" for ch in a), "ga3e", [R0],
         [(f"1.0 * ({a} * e1 + {b} * e1)", lambda E, f=_Q[a], g=_Q[b]: E.e(1) * (f() + g())) for b in _Q]
         + [(f"1.0 * ({a} * (e1 ^ e2) - {b} * (e1 ^ e2))", lambda E, f=_Q[a], g=_Q[b]: E.e(1, 2) * (f() - g())) for b in _Q]
         + [(f"{a} * (e2 ^ e1) + t * (e1 ^ e2) + c<2> * e3", lambda E, f=_Q[a]: E.e(1, 2) * (t(E) - f()) + E.e(3) * 2), (f"1.0 * ({a} * e1 + c<2> * e2 + {a} * e1 - e2)", lambda E, f=_Q[a]: E.e(1) * (f() * 2) + E.e(2)),
            (f"1.0 * (-({a} * e1))", lambda E, f=_Q[a]: -(E.e(1) * f())), (f"{a} * (t * e1 + c<2> * e3)", lambda E, f=_Q[a]: E.e(1) * (t(E) * f()) + E.e(3) * (f() * 2)),
            (f"1.0 * (({a} * e1) * c<7>)", lambda E, f=_Q[a]: E.e(1) * (f() * 7)), (f"1.0 * (({a} * e1) / c<7>)", lambda E, f=_Q[a]: E.e(1) * (f() / RF.const(7)))], weight=1.5)

# like terms merge: no basis blade known at compile time occurs twice in a result
_DUP = ("!{ int d = 0, n = 0; ga::bitset_t seen[128]; ga::for_each_component(%s, [&](ga::bitset_t b, auto const &, ga::entry_source_t s, ga::entry_source_t, bool &) {"
        " if (s == ga::COMPILE_TIME_DEFINED_ENTRY) { for (int k = 0; k < n; ++k) if (seen[k] == b) ++d; seen[n++] = b; } }); vf_put(@, 1.0 * d); }")
MK = ["full", "kv1", "vec", "cb1", "cb21", "ub1", "ub12", "csum", "dv", "mix", "ud", "sum", "sc", "ic", "ps"]
for a in MK:
    Case(P, f"merge_{a}", "ga3e", [operand(a, "x", n)] + [operand(b, f"y{k}", n) for k, b in enumerate(MK)],
         [(_DUP % f"{l} {o} {r}", lambda E: E.s(0)) for k in range(len(MK)) for o in "+-" for l, r in (("x", f"y{k}"), (f"y{k}", "x"))], weight=4)
Case(P, "merge3", "ga3e", [operand("sum", "x", n), operand("csum", "y", n), operand("cb1", "z", n), operand("mix", "w", n)],
     [(_DUP % e, lambda E: E.s(0)) for e in ("x + y + z + w", "w - (z - (y - x))", "(x + z) - (y + z)", "z + z + x - z", "z + (x + z)", "(w + w) + (y + w)", "2.0 * x + z * 3.0", "x + 1.0 + y + c<2>")], weight=2)
