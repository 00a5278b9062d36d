"""P21: scalar functions of scalar multivectors give the function of the coefficient, whatever the argument is made of."""
from spec._lib import *
from fractions import Fraction as F

P = "P21"
f = S.s_fun
NEG, NZ, POS, NN = {-1}, {-1, 1}, {1}, {0, 1}
# text over X (and Y): the specification, the admissible signs of X
ONE = [
    ("pow(X, c<2>)", lambda x: x * x, None), ("pow(X, c<3>)", lambda x: x * x * x, None), ("pow(X, c<4>)", lambda x: x * x * x * x, None),
    ("pow(X, c<5>)", lambda x: x * x * x * x * x, None), ("pow(X, c<1>)", lambda x: x, None), ("pow(X, c<0>)", lambda x: S.ONE, NZ),
    ("pow(X, c<-1>)", lambda x: S.ONE / x, NZ), ("pow(X, c<-2>)", lambda x: S.ONE / (x * x), NZ), ("pow(X, c<-3>)", lambda x: S.ONE / (x * x * x), NZ),
    ("pow(X, 2)", lambda x: x * x, None), ("pow(X, 3.0)", lambda x: x * x * x, None), ("pow(X, -1.0)", lambda x: S.ONE / x, NZ), ("pow(X, 0.5)", lambda x: f("sqrt", x), NN),
    ("sqrt(X)", lambda x: f("sqrt", x), NN), ("cbrt(X)", lambda x: f("cbrt", x), None), ("abs(X)", S.s_abs, None),
    ("log(X)", lambda x: f("log", x), POS), ("exp(X)", lambda x: f("exp", x), None)] + \
    [(g + "(X)", lambda x, g=g: f(g, x), None) for g in ("cos", "sin", "tan", "cosh", "sinh", "tanh")]
# compositions: the simplifications must not lose the sign
COMP = [
    ("sqrt(pow(X, c<2>))", S.s_abs, None), ("sqrt(pow(X, c<4>))", lambda x: x * x, None), ("pow(sqrt(X), c<2>)", lambda x: x, NN), ("pow(sqrt(X), c<4>)", lambda x: x * x, NN),
    ("cbrt(pow(X, c<3>))", lambda x: x, None), ("pow(cbrt(X), c<3>)", lambda x: x, None), ("cbrt(cbrt(X))", lambda x: f("cbrt", f("cbrt", x)), None),
    ("sqrt(sqrt(X))", lambda x: f("sqrt", f("sqrt", x)), NN), ("pow(pow(X, c<2>), c<3>)", lambda x: (x * x) * (x * x) * (x * x), None), ("pow(pow(X, c<3>), c<2>)", lambda x: (x * x) * (x * x) * (x * x), None),
    ("pow(pow(X, c<2>), 0.5)", S.s_abs, None), ("pow(pow(X, c<2>), c<-1>)", lambda x: S.ONE / (x * x), NZ), ("sqrt(pow(X, c<-2>))", lambda x: S.ONE / S.s_abs(x), NZ),
    ("pow(pow(X, c<-1>), c<-1>)", lambda x: x, NZ), ("pow(pow(X, c<-1>), c<-2>)", lambda x: x * x, NZ),
    ("sqrt(X * X)", S.s_abs, None), ("sqrt(X * X * X * X)", lambda x: x * x, None), ("cbrt(X * X * X)", lambda x: x, None), ("sqrt(X) * sqrt(X)", lambda x: x, NN),
    ("X * pow(X, c<-1>)", lambda x: S.ONE, NZ), ("pow(X, c<2>) * pow(X, c<-3>)", lambda x: S.ONE / x, NZ), ("pow(X, c<2>) * X", lambda x: x * x * x, None), ("X / X", lambda x: S.ONE, NZ), ("pow(X, c<2>) / X", lambda x: x, NZ),
    ("sqrt(X) * X", lambda x: f("sqrt", x) * x, NN), ("X / sqrt(X)", lambda x: f("sqrt", x), POS),
    ("sqrt(c<4> * X)", lambda x: f("sqrt", x) * 2, NN), ("sqrt(c<-9> * X)", lambda x: f("sqrt", -x) * 3, {-1, 0}), ("sqrt(-X)", lambda x: f("sqrt", -x), {-1, 0}), ("sqrt(c<4> * pow(X, c<2>))", lambda x: S.s_abs(x) * 2, None),
    ("cbrt(c<-8> * X)", lambda x: f("cbrt", x) * -2, None), ("cbrt(c<27> * pow(X, c<3>))", lambda x: x * 3, None), ("pow(-X, c<2>)", lambda x: x * x, None), ("pow(-X, c<3>)", lambda x: -(x * x * x), None), ("pow(c<2> * X, c<3>)", lambda x: x * x * x * 8, None), ("pow(c<-2> * X, c<-2>)", lambda x: S.ONE / (x * x * 4), NZ),
    ("abs(-X)", S.s_abs, None), ("abs(abs(X))", S.s_abs, None), ("abs(pow(X, c<2>))", lambda x: x * x, None), ("abs(pow(X, c<3>))", lambda x: S.s_abs(x) * x * x, None), ("abs(c<-3> * X)", lambda x: S.s_abs(x) * 3, None), ("abs(X * X)", lambda x: x * x, None), ("abs(X) * abs(X)", lambda x: x * x, None), ("sqrt(abs(X))", lambda x: f("sqrt", S.s_abs(x)), None), ("pow(abs(X), c<2>)", lambda x: x * x, None), ("abs(pow(X, c<-1>))", lambda x: S.ONE / S.s_abs(x), NZ),
    ("abs(sqrt(X))", lambda x: f("sqrt", x), NN), ("abs(cbrt(X))", lambda x: S.s_abs(f("cbrt", x)), None), ("abs(X + X)", lambda x: S.s_abs(x) * 2, None), ("abs(X - c<1>)", lambda x: S.s_abs(x - 1), None), ("abs(pow(X, c<2>) - X)", lambda x: S.s_abs(x * x - x), None), ("abs(pow(X, c<2>) - c<1>)", lambda x: S.s_abs(x * x - 1), None),
    ("exp(log(X))", lambda x: x, POS), ("log(exp(X))", lambda x: x, None), ("exp(X) * exp(-X)", lambda x: S.ONE, None), ("exp(X + X)", lambda x: f("exp", x + x), None), ("abs(exp(X))", lambda x: f("exp", x), None),
    ("abs(cos(X))", lambda x: S.s_abs(f("cos", x)), None), ("abs(sin(X))", lambda x: S.s_abs(f("sin", x)), None), ("abs(tan(X))", lambda x: S.s_abs(f("tan", x)), None), ("abs(sinh(X))", lambda x: S.s_abs(f("sinh", x)), None), ("abs(cosh(X))", lambda x: f("cosh", x), None), ("abs(tanh(X))", lambda x: S.s_abs(f("tanh", x)), None), ("sqrt(pow(cos(X), c<2>))", lambda x: S.s_abs(f("cos", x)), None), ("pow(cos(X), c<2>) + pow(sin(X), c<2>)", lambda x: S.ONE, None), ("abs(log(exp(X)))", S.s_abs, None),
    ("pow(cosh(X), c<2>) - pow(sinh(X), c<2>)", lambda x: S.ONE, None), ("cos(-X)", lambda x: f("cos", x), None), ("sin(-X)", lambda x: -f("sin", x), None), ("sinh(c<2> * X)", lambda x: f("sinh", x * 2), None), ("tan(X + X)", lambda x: f("tan", x * 2), None),
    ("X * X / cbrt(X)", lambda x: x * x / f("cbrt", x), NZ), ("cbrt(X) / X", lambda x: f("cbrt", x) / x, NZ), ("pow(cbrt(X), c<-2>)", lambda x: S.ONE / (f("cbrt", x) * f("cbrt", x)), NZ), ("pow(cbrt(X), c<-1>)", lambda x: S.ONE / f("cbrt", x), NZ), ("X / cbrt(X) / cbrt(X)", lambda x: f("cbrt", x), NZ), ("pow(cbrt(X), c<6>)", lambda x: x * x, None), ("abs(pow(cbrt(X), c<2>))", lambda x: f("cbrt", x) * f("cbrt", x), None), ("abs(pow(cbrt(X), c<5>))", lambda x: S.s_abs(x * f("cbrt", x) * f("cbrt", x)), None), ("sqrt(pow(cbrt(X), c<2>))", lambda x: S.s_abs(f("cbrt", x)), None), ("cbrt(pow(cbrt(X), c<2>))", lambda x: f("cbrt", f("cbrt", x) * f("cbrt", x)), None), ("pow(cbrt(cbrt(X)), c<2>)", lambda x: f("cbrt", f("cbrt", x)) * f("cbrt", f("cbrt", x)), None), ("sqrt(X) * X * X", lambda x: f("sqrt", x) * x * x, NN), ("X * X / sqrt(X)", lambda x: f("sqrt", x) * x, POS), ("c<3> / c<2> + X", lambda x: x + F(3, 2), None), ("X * (c<1> / c<3>) - X * (c<5> / c<2>)", lambda x: x * F(-13, 6), None), ("pow(X, c<2>) / c<4> + X / c<6>", lambda x: x * x / 4 + x / 6, None),
    ("cbrt(X) * cbrt(X)", lambda x: f("cbrt", x) * f("cbrt", x), None), ("cbrt(X) * X", lambda x: f("cbrt", x) * x, None), ("X / cbrt(X)", lambda x: x / f("cbrt", x), NZ), ("cbrt(pow(X, c<2>))", lambda x: f("cbrt", x * x), None), ("pow(cbrt(X), c<2>)", lambda x: f("cbrt", x) * f("cbrt", x), None), ("sqrt(cbrt(pow(X, c<2>)))", lambda x: S.s_abs(f("cbrt", x)), None),
]
TWO = [
    ("pow(X, Y)", lambda x, y: f("pow", x, y), POS, None), ("pow(X, Y) * pow(X, c<2>)", lambda x, y: f("pow", x, y) * x * x, POS, None),
    ("sqrt(pow(X, c<2>) * pow(Y, c<2>))", lambda x, y: S.s_abs(x) * S.s_abs(y), None, None), ("sqrt(X * Y)", lambda x, y: f("sqrt", x * y), POS, POS), ("sqrt(X * Y)", lambda x, y: f("sqrt", x * y), NEG, NEG), ("pow(X * Y, c<2>)", lambda x, y: x * x * y * y, None, None), ("pow(X * Y, c<-1>)", lambda x, y: S.ONE / (x * y), NZ, NZ), ("pow(X + Y, c<2>)", lambda x, y: (x + y) * (x + y), None, None),
    ("sqrt(pow(X, c<2>) * Y)", lambda x, y: S.s_abs(x) * f("sqrt", y), None, NN), ("sqrt(abs(X) * abs(Y))", lambda x, y: f("sqrt", S.s_abs(x * y)), None, None), ("abs(X * Y)", lambda x, y: S.s_abs(x * y), None, None), ("abs(X - Y)", lambda x, y: S.s_abs(x - y), None, None), ("sqrt(pow(X, c<2>) + pow(Y, c<2>))", lambda x, y: f("sqrt", x * x + y * y), None, None),
    ("cbrt(X * Y)", lambda x, y: f("cbrt", x * y), None, None), ("abs(pow(X, c<2>) * Y)", lambda x, y: x * x * S.s_abs(y), None, None), ("abs(X / Y)", lambda x, y: S.s_abs(x) / S.s_abs(y), None, NZ), ("X / Y * Y", lambda x, y: x, None, NZ), ("exp(X + Y)", lambda x, y: f("exp", x + y), None, None), ("cos(X - Y)", lambda x, y: f("cos", x - y), None, None),
    ("sqrt(pow(X - Y, c<2>))", lambda x, y: S.s_abs(x - y), None, None), ("pow(abs(X - Y), c<2>)", lambda x, y: (x - y) * (x - y), None, None), ("abs(pow(X - Y, c<3>))", lambda x, y: S.s_abs(x - y) * (x - y) * (x - y), None, None),
]


def req(sx, sy=None):
    return lambda E: ([(E.x.get(0), sx)] if sx else []) + ([(E.y.get(0), sy)] if sy else [])


RUNTIME = ("pow(X, 2)", "pow(X, 3.0)", "pow(X, -1.0)", "pow(X, 0.5)", "pow(pow(X, c<2>), 0.5)")  # exponents known at run time
for k, (t, g, sx) in enumerate(ONE + COMP):
    out = lambda E, g=g: E.s(g(E.x.get(0)))
    nm = "".join(c for c in t if c.isalnum() or c in "-+*/(").replace("(", "_").replace("/", "div").replace("*", "mul")
    eager = t.replace("X", "x")
    Case(P, f"e{k}_{nm}", "ga3e", [operand("sc", "x", 3)], [(eager, out)], requires=req(sx), weight=.25)
    if t in RUNTIME:
        continue
    if "log(exp" not in t:
        Case(P, f"l{k}_{nm}", "ga3e", [operand("sc", "x", 3)], [("!auto const L = ga::make_lazy_context(x); auto const l = L.argument<0>(); vf_put(@, L.eval(" + t.replace("X", "l") + "));", out)], requires=req(sx), weight=.25)
    # the argument is an expression: a scalar product of vectors
    if k % 3 == 0 or k < len(ONE):
        o = Operand("u", "vector($0, $1, c<2>)", lambda E, r, i, q: E.e(1) * r[0] + E.e(2) * r[1] + E.e(3) * 2, real=2)
        ex = lambda E: E.u.get(1) * E.r["u"][1] + 2
        Case(P, f"x{k}_{nm}", "ga3e", [o], [("!auto const L = ga::make_lazy_context(u); auto const l = sp(L.argument<0>(), vector(scalar(a[1]), c<0>, c<1>)); vf_put(@, L.eval(" + t.replace("X", "l") + "));" if False else
                                            "!auto const w = vector(a[1], 0.0, 1.0); auto const L = ga::make_lazy_context(u, w); auto const l = sp(L.argument<0>(), L.argument<1>()); vf_put(@, L.eval(" + t.replace("X", "l") + "));",
                                            lambda E, g=g: E.s(g(ex(E))))], requires=(lambda sx: lambda E: [(ex(E), sx)] if sx else [])(sx), weight=.3)
for k, (t, g, sx, sy) in enumerate(TWO):
    out = lambda E, g=g: E.s(g(E.x.get(0), E.y.get(0)))
    ops = [operand("sc", "x", 3), operand("sc", "y", 3)]
    Case(P, f"e2_{k}", "ga3e", ops, [(t.replace("X", "x").replace("Y", "y"), out)], requires=req(sx, sy), weight=.25)
    Case(P, f"l2_{k}", "ga3e", ops, [("!auto const L = ga::make_lazy_context(x, y); auto const l = L.argument<0>(); auto const m = L.argument<1>(); vf_put(@, L.eval(" + t.replace("X", "l").replace("Y", "m") + "));", out)], requires=req(sx, sy), weight=.25)
# constants
CONST = [0, 1, -1, 2, -2, 3, 4, -4, 9, 12, -27, 8]
for kc, (t, g, sx) in enumerate(ONE + [z for z in COMP if "log(exp" not in z[0]]):
    outs = []
    for v in CONST:
        s = (v > 0) - (v < 0)
        if sx and s not in sx:
            continue
        if t == "sqrt(pow(cbrt(X), c<2>))" and abs(v) in (4, 12) or t in RUNTIME and v == 0 or abs(v) > 12 and "sqrt(" in t:
            continue
        if "/" in t and v == 0 or t in ("cbrt(X) * X",) and v == 0:
            continue
        outs.append(("1.0 * (" + t.replace("X", f"c<{v}>") + ")", lambda E, g=g, v=v: E.s(g(RF.const(v)))))
    nm = "".join(c for c in t if c.isalnum() or c in "-+*/(").replace("(", "_").replace("/", "div").replace("*", "mul")
    Case(P, f"c{kc}_{nm}", "ga3e", [], outs, weight=.25)
# a coefficient of a longer expression
Case(P, "in_vector", "ga3e", [operand("vec", "x", 3), operand("sc", "y", 3)],
     [("sqrt(sp(x, x)) * x", lambda E: E.x.scale(S.s_sqrt(E.x.sprod(E.x)))), ("abs(y) * x", lambda E: E.x.scale(S.s_abs(E.y.get(0)))), ("x / abs(y)", lambda E: E.x.scale(S.ONE / S.s_abs(E.y.get(0)))),
      ("cos(y) * x + sin(y) * e1", lambda E: E.x.scale(f("cos", E.y.get(0))) + E.e(1).scale(f("sin", E.y.get(0)))), ("pow(sp(x, x), c<2>)", lambda E: E.s(E.x.sprod(E.x) * E.x.sprod(E.x)))],
     requires=lambda E: [(E.y.get(0), NZ)])
# arithmetic of rational and irrational constants, alone and as factors of a coefficient: the simplifications fold all of it at compile time
RAT = [F(1), F(-1), F(2), F(-3), F(1, 2), F(-1, 2), F(1, 3), F(2, 3), F(-5, 2), F(3, 4), F(-7, 6), F(1, 5)]


def rat(q):
    return f"c<{q.numerator}>" if q.denominator == 1 else f"(c<{q.numerator}> / c<{q.denominator}>)"


BIN = [("+", lambda a, b: a + b), ("-", lambda a, b: a - b), ("*", lambda a, b: a * b), ("/", lambda a, b: a / b)]
for i, p in enumerate(RAT):
    outs, sums = [], []
    for j, q in enumerate(RAT):
        for o, g in BIN:
            outs.append((f"1.0 * ({rat(p)} {o} {rat(q)})", lambda E, v=g(p, q): E.s(RF.const(v))))
        o, g = BIN[(i + j) % 4]
        z = RAT[(2 * i + 5 * j + 1) % len(RAT)]
        o2, g2 = BIN[(i + 2 * j + j // 3) % 3]
        sums.append((f"x * {rat(p)} {'+-'[j % 2]} x * {rat(q)}", lambda E, v=p + (-1) ** (j % 2) * q: E.s(E.x.get(0) * RF.const(v))))
        sums.append((f"({rat(p)} {o2} {rat(z)} {o} {rat(q)}) * x" if o in "*/" else f"(({rat(p)} {o2} {rat(z)}) {o} {rat(q)}) * x",
                     lambda E, v=(eval("p %s z %s q" % (o2, o), {"p": p, "z": z, "q": q})): E.s(E.x.get(0) * RF.const(v))))
    Case(P, f"rat{i}", "ga3e", [], outs, weight=.4)
    Case(P, f"ratx{i}", "ga3e", [operand("sc", "x", 3)], sums, weight=.4)
    Case(P, f"ratl{i}", "ga3e", [operand("sc", "x", 3)], [("!{ auto const L = ga::make_lazy_context(x); auto const l = L.argument<0>(); vf_put(@, L.eval(" + t.replace("x", "l") + ")); }", s) for t, s in sums], weight=.4)
# surds
R2, R3 = "sqrt(c<2>)", "sqrt(c<3>)"
SURD = [(f"{R2} * {R2}", lambda q2, q3: RF.const(2)), (f"{R2} * {R3}", lambda q2, q3: q2 * q3), (f"{R2} + {R2}", lambda q2, q3: q2 * 2), (f"c<3> * {R2} - {R2}", lambda q2, q3: q2 * 2), (f"{R2} + {R3} - {R2}", lambda q2, q3: q3), (f"c<1> / {R2}", lambda q2, q3: S.ONE / q2), (f"{R2} / c<2>", lambda q2, q3: q2 * RF.const(F(1, 2))),
        (f"pow({R2}, c<3>)", lambda q2, q3: q2 * 2), (f"pow({R2}, c<-1>)", lambda q2, q3: S.ONE / q2), (f"pow({R2}, c<-4>)", lambda q2, q3: RF.const(F(1, 4))), (f"(c<1> + {R2}) * (c<1> - {R2})", lambda q2, q3: RF.const(-1)), (f"({R2} + {R3}) * {R2}", lambda q2, q3: q2 * q3 + 2), (f"c<2> / c<3> * {R2} + {R2} / c<4>", lambda q2, q3: q2 * RF.const(F(11, 12))),
        (f"abs(c<-2> * {R2})", lambda q2, q3: q2 * 2), (f"abs(c<1> / c<-3>)", lambda q2, q3: RF.const(F(1, 3))), (f"-{R2}", lambda q2, q3: -q2), (f"{R2} - c<1> / c<2>", lambda q2, q3: q2 - RF.const(F(1, 2))), (f"pow(c<2> / c<3>, c<2>)", lambda q2, q3: RF.const(F(4, 9))), (f"pow(c<2> / c<3>, c<-2>)", lambda q2, q3: RF.const(F(9, 4))), (f"pow(c<-2> / c<3>, c<3>)", lambda q2, q3: RF.const(F(-8, 27))),
        (f"sqrt(c<4> / c<9>)", lambda q2, q3: RF.const(F(2, 3))), (f"sqrt(c<1> / c<4>) + c<1>", lambda q2, q3: RF.const(F(3, 2))), (f"sqrt(c<8>) * {R2}", lambda q2, q3: f("sqrt", RF.const(8)) * q2)]


def surd(v):
    return v(*(f("sqrt", RF.const(k)) for k in (2, 3)))


Case(P, "surds", "ga3e", [], [(f"1.0 * ({t})", lambda E, v=v: E.s(surd(v))) for t, v in SURD], weight=.5)
Case(P, "surdsx", "ga3e", [operand("sc", "x", 3)], [(f"x * ({t}) - x * c<2>", lambda E, v=v: E.s(E.x.get(0) * (surd(v) - 2))) for t, v in SURD], weight=.5)
Case(P, "surdsl", "ga3e", [operand("sc", "x", 3)], [("!{ auto const L = ga::make_lazy_context(x); auto const l = L.argument<0>(); vf_put(@, L.eval(" + f"l * ({t}) - l * c<2>" + ")); }", lambda E, v=v: E.s(E.x.get(0) * (surd(v) - 2))) for t, v in SURD], weight=.5)
# sums and products of every two kinds of factors: whatever order the simplifications sort them in, equal terms are merged and no other
TERMS = [("X", lambda x, y: x), ("Y", lambda x, y: y), ("c<3>", lambda x, y: RF.const(3)), ("(c<2> / c<3>)", lambda x, y: RF.const(F(2, 3))), ("sqrt(c<2>)", lambda x, y: f("sqrt", RF.const(2))), ("pow(X, c<2>)", lambda x, y: x * x), ("pow(Y, c<-1>)", lambda x, y: S.ONE / y),
         ("abs(X)", lambda x, y: S.s_abs(x)), ("exp(X)", lambda x, y: f("exp", x)), ("exp(Y)", lambda x, y: f("exp", y)), ("log(Y)", lambda x, y: f("log", y)), ("cos(X)", lambda x, y: f("cos", x)), ("sin(X)", lambda x, y: f("sin", x)), ("sinh(Y)", lambda x, y: f("sinh", y)), ("cosh(Y)", lambda x, y: f("cosh", y)), ("tan(Y)", lambda x, y: f("tan", y)), ("tanh(X)", lambda x, y: f("tanh", x)),
         ("sqrt(Y)", lambda x, y: f("sqrt", y)), ("cbrt(X)", lambda x, y: f("cbrt", x)), ("(X + Y)", lambda x, y: x + y), ("(X * Y)", lambda x, y: x * y), ("cos(X * Y)", lambda x, y: f("cos", x * y))]
MIX = [("@A * @B + @B * @A", lambda a, b, x, y: a * b * 2), ("(@A + @B) - @A", lambda a, b, x, y: b), ("(@A - @B) * (@B + X) - X * @A", lambda a, b, x, y: (a - b) * (b + x) - x * a), ("c<2> * @A + @B * c<3> - @A", lambda a, b, x, y: a + b * 3), ("@A * X * @B - @B * (@A * Y)", lambda a, b, x, y: a * b * (x - y))]
for i, (ta, fa) in enumerate(TERMS):
    outs = []
    for j, (tb, fb) in enumerate(TERMS[i:]):
        for k in ((i + j) % len(MIX), (i + 2 * j + 1) % len(MIX)):
            t, g = MIX[k]
            sub = t.replace("@A", ta).replace("@B", tb)
            outs.append(("!{ auto const L = ga::make_lazy_context(x, y); auto const l = L.argument<0>(); auto const m = L.argument<1>(); vf_put(@, 1.0 * L.eval(" + sub.replace("X", "l").replace("Y", "m") + ")); }",
                         lambda E, g=g, fa=fa, fb=fb: (lambda x, y: E.s(g(fa(x, y), fb(x, y), x, y)))(E.x.get(0), E.y.get(0))))
    for h in range(0, len(outs), 16):
        Case(P, f"mix{i}_{h // 16}", "ga3e", [operand("sc", "x", 3), operand("sc", "y", 3)], outs[h:h + 16], requires=lambda E: [(E.y.get(0), POS)], weight=1.2)
Case(P, "pow_base", "ga3e", [operand("nat", "x", 3), operand("sc", "y", 3)], [("pow(x, y)", lambda E: E.s(f("pow", E.x.get(0), E.y.get(0)))), ("pow(x, c<2>)", lambda E: E.s(E.x.get(0) * E.x.get(0)))], requires=lambda E: [(E.x.get(0), POS)])
