"""P24: the text written for a multivector denotes the multivector."""
from spec._lib import *
from fractions import Fraction
from gatlver.space import SP

P = "P24"


def wcase(name, space, ops, outs, names=None, **kw):
    c = Case(P, name, space, ops, [("!vf_write(@, [&](std::ostream &os) { " + t + " });", f) for t, f in outs], **kw)
    c.textual = True
    c.names = names or SP[space].names
    return c


def put(name, space, kind, expr="x", f=lambda m: m, **kw):
    n = SP[space].n
    wcase(name, space, [operand(kind, "x", n)], [(f"os << {expr};", lambda E: f(E.x))], **kw)


ALLK = CONST + DYN + DENSE + SCAL + ["qv", "qfull", "kv1"]
for k in ALLK:
    put(f"w_ga3e_{k}", "ga3e", k, weight=0.6)
for sp in ("ga2e", "ga4e", "ga5e", "ga1e", "ga2h", "ga3h", "ga2m", "ga3m", "ga2c", "ga3c", "ga3p", "ga2p", "ga4p", "ga1m", "ga1c", "ga1h", "ga4h", "ga1p", "s211", "g3"):
    n = SP[sp].n
    for k in ("vec", "dv", "ps") if n > 1 else ("vec", "dv"):
        put(f"w_{sp}_{k}", sp, k, weight=0.6)
    if n > 2:
        put(f"w_{sp}_db", sp, "db", weight=0.6)
        wcase(f"w_{sp}_full", sp, [Full("x", 0, 2) if n == 3 else operand("sum", "x", n)], [("os << x;", lambda E: E.x)], weight=1.5)

# results of operations, native scalars, chains and the function write() with other names
V3 = operand("vec", "x", 3)
wcase("w_expr_gp", "ga3e", [operand("sum", "x", 3), operand("cb1", "y", 3)], [("os << x * y;", lambda E: E.x.gp(E.y)), ("os << (x ^ y);", lambda E: E.x ^ E.y),
                                                          ("os << -x;", lambda E: -E.x), ("os << reverse(x);", lambda E: E.x.rev())], weight=3)
wcase("w_expr_dyn", "ga2e", [operand("dsum", "x", 2), operand("dv", "y", 2)], [("os << x * y;", lambda E: E.x.gp(E.y)), ("os << x + y;", lambda E: E.x + E.y)], weight=3)
wcase("w_chain", "ga3e", [V3, operand("dv", "y", 3)], [("os << x << \" + \" << y;", lambda E: E.x + E.y)], weight=1)
wcase("w_names", "ga3e", [operand("sum", "x", 3), operand("db", "y", 3)],
      [("std::array<std::string, 3> const nm = { \"a\", \"bb\", \"c3\" }; write(os, x, nm);", lambda E: E.x),
       ("std::array<std::string, 3> const nm = { \"a\", \"bb\", \"c3\" }; write(os, y, nm) << \" + \" << c<2>;", lambda E: E.y + E.s(2))], names=["a", "bb", "c3"], weight=2)
wcase("w_consts", "ga3e", [], [("os << c<5>;", lambda E: E.s(5)), ("os << c<-5>;", lambda E: E.s(-5)), ("os << c<0>;", lambda E: E.s(0)),
                               ("os << c<-3> * (e1 ^ e3);", lambda E: E.e(1, 3) * -3), ("os << c<7> - c<2> * e2;", lambda E: E.s(7) - E.e(2) * 2),
                               ("os << sqrt(c<2>) * e1;", lambda E: E.e(1) * S.s_sqrt(RF.const(2))), ("os << I;", lambda E: E.I),
                               ("os << c<1> / c<3> + e1;", lambda E: E.s(S.ONE / RF.const(3)) + E.e(1))], weight=2)
wcase("w_float", "ga3e", [Full("x", 1, 2, "float")], [("os << x;", lambda E: E.x)], weight=1)
# coefficients that are expressions of constants
r2, r3, r5 = (lambda: S.s_sqrt(RF.const(2))), (lambda: S.s_sqrt(RF.const(3))), (lambda: S.s_sqrt(RF.const(5)))
wcase("w_surds", "ga3e", [], [("os << sqrt(c<2>) * sqrt(c<3>) * e1;", lambda E: E.e(1) * (r2() * r3())), ("os << (sqrt(c<2>) + sqrt(c<3>)) * e1;", lambda E: E.e(1) * (r2() + r3())),
    ("os << (sqrt(c<2>) + c<1>) * sqrt(c<3>) * e1;", lambda E: E.e(1) * ((r2() + 1) * r3())), ("os << c<2> / c<3> * sqrt(c<2>) * e1;", lambda E: E.e(1) * (r2() * RF.const(Fraction(2, 3)))),
    ("os << (sqrt(c<2>) + c<1>) * (sqrt(c<5>) + sqrt(c<3>)) * (e1 ^ e2);", lambda E: E.e(1, 2) * ((r2() + 1) * (r5() + r3()))),
    ("os << e2 * pow(sqrt(c<2>) + c<1>, c<-1>);", lambda E: E.e(2) * (S.ONE / (r2() + 1))), ("os << e1 / (sqrt(c<2>) + sqrt(c<3>)) + c<4>;", lambda E: E.e(1) * (S.ONE / (r2() + r3())) + E.s(4)),
    ("os << -sqrt(c<2>) * e1 - e2;", lambda E: -(E.e(1) * r2()) - E.e(2)), ("os << abs(sqrt(c<2>) - sqrt(c<3>)) * e1;", lambda E: E.e(1) * S.s_abs(r2() - r3()))], weight=3)
for g in ("exp", "log", "cos", "sin", "tan", "cosh", "sinh", "tanh"):
    fn = lambda v, g=g: S.s_fun(g, v)
    wcase(f"w_{g}", "ga3e", [], [(f"os << {g}(c<2>) * e1;", lambda E, fn=fn: E.e(1) * fn(RF.const(2))), (f"os << {g}(c<2>) * {g}(c<3>) * e1;", lambda E, fn=fn: E.e(1) * (fn(RF.const(2)) * fn(RF.const(3)))),
        (f"os << c<3> * {g}(c<2>) + e1;", lambda E, fn=fn: E.s(fn(RF.const(2)) * 3) + E.e(1)), (f"os << ({g}(c<2>) + c<1>) * e1 - e2;", lambda E, fn=fn: E.e(1) * (fn(RF.const(2)) + 1) - E.e(2)),
        (f"os << ({g}(c<2>) + c<1>) * {g}(c<3>) * e1;", lambda E, fn=fn: E.e(1) * ((fn(RF.const(2)) + 1) * fn(RF.const(3)))), (f"os << abs({g}(c<2>) - c<9>) * e1;", lambda E, fn=fn: E.e(1) * S.s_abs(fn(RF.const(2)) - 9))], weight=1.5)
for k in WIDE:
    wcase(f"wide_{k}", "s63", [wide(k, "x")], [("os << x;", lambda E: E.x)])
