"""P07: an expression of lazy arguments, evaluated by its context, has the value of the same expression on the arguments.

Programs are written once, in Python, and give both the C++ text over the lazy arguments and the specification over exact multivectors: the
specification never simplifies anything."""
import random

from fractions import Fraction

from spec._lib import *

P = "P07"


class X:
    """A program: C++ text, its meaning, and what must hold for it to be defined."""

    def __init__(self, c, f, req=()):
        self.c, self.f, self.req = c, f, tuple(req)

    def bin(self, o, op, g):
        if isinstance(o, int):
            o = K(o)
        return X(f"({self.c} {op} {o.c})", lambda E, a=self, b=o: g(a.f(E), b.f(E)), self.req + o.req)

    def __add__(self, o):
        return self.bin(o, "+", lambda a, b: a + b)

    def __sub__(self, o):
        return self.bin(o, "-", lambda a, b: a - b)

    def __mul__(self, o):
        return self.bin(o, "*", lambda a, b: a.gp(b))

    def __xor__(self, o):
        return self.bin(o, "^", lambda a, b: a ^ b)

    def __truediv__(self, o):
        if isinstance(o, int):
            o = K(o)
        r = self.bin(o, "/", lambda a, b: a.gp(b.versor_inverse()))
        r.req += ((o, {-1, 1}),)
        return r

    def __rmul__(self, k):
        return K(k) * self

    def __radd__(self, k):
        return K(k) + self

    def __rsub__(self, k):
        return K(k) - self

    def __rtruediv__(self, k):
        return K(k) / self

    def __neg__(self):
        return X(f"(-{self.c})", lambda E: -self.f(E), self.req)

    def __invert__(self):
        return fn("~", lambda m: m.rev())(self)


def K(n):
    return X(f"c<{n}>", lambda E: E.s(n))


def fn(name, g, *req):
    """A function of one multivector."""
    def h(x):
        return X(f"{name}{x.c}" if name == "~" else f"{name}({x.c})", lambda E: g(x.f(E)), x.req + tuple((x, r) for r in req))
    return h


def fn2(name, g):
    return lambda x, y: X(f"{name}({x.c}, {y.c})", lambda E: g(E, x.f(E), y.f(E)), x.req + y.req)


def sc(g):
    return lambda m: MV(m.sp, {0: g(m.get(0))})


def lift(g):
    return lambda m: MV(m.sp, {0: MV.lift(g(m.get(0)))})


NN, NZ, PO = {0, 1}, {-1, 1}, {1}
sqrt = fn("sqrt", lift(lambda x: S.s_fun("sqrt", x)), NN)
cbrt = fn("cbrt", lift(lambda x: S.s_fun("cbrt", x)))
aabs = fn("abs", lift(S.s_abs))
fexp = fn("exp", lift(lambda x: S.s_fun("exp", x)))
flog = fn("log", lift(lambda x: S.s_fun("log", x)), PO)
fcos = fn("cos", lift(lambda x: S.s_fun("cos", x)))
fsin = fn("sin", lift(lambda x: S.s_fun("sin", x)))
rev = fn("reverse", lambda m: m.rev())
invo = fn("involute", lambda m: m.inv_())
conj = fn("conjugate", lambda m: m.conj())
rnsq = fn("rnorm_sqr", lambda m: MV(m.sp, {0: m.rnorm_sqr()}))
inv = fn("inv", lambda m: m.versor_inverse())
lcont = fn2("lcont", lambda E, a, b: a.lcont(b))
rcont = fn2("rcont", lambda E, a, b: a.rcont(b))
dot = fn2("dot", lambda E, a, b: a.dot(b))
hip = fn2("hip", lambda E, a, b: a.hip(b))
sp_ = fn2("sp", lambda E, a, b: a.sprod(b))
rp = fn2("rp", lambda E, a, b: a.rp(b))
dual = fn("dual", lambda m: m.dual())
undual = fn("undual", lambda m: m.undual())


def tg(x, *g):
    if len(g) == 1:
        return X(f"take_grade({x.c}, c<{g[0]}>)", lambda E: x.f(E).grades(*g), x.req)
    raise ValueError


def pw(x, k):
    def g(m):
        v = m.get(0)
        r = S.ONE
        for _ in range(abs(k)):
            r = r * v
        return MV(m.sp, {0: r if k >= 0 else S.ONE / r})
    return X(f"pow({x.c}, c<{k}>)", lambda E: g(x.f(E)), x.req + (((x, NZ),) if k <= 0 else ()))


def arg(k, name):
    return X(f"L.argument<{k}>()", lambda E: E.v[name])


def val(name):
    """A stored value used inside a lazy expression."""
    return X(name, lambda E: E.v[name])


def programs(tag, space, ops, progs, weight=1, tier="quick", split=1, extra=None):
    """One contract per group of programs; ops: [(operand, lazy?)]."""
    lazy = [o.name for o, z in ops if z]
    decl = f"auto L = make_lazy_context({', '.join(lazy)});"
    per = max(1, -(-len(progs) // split))
    for g in range(0, len(progs), per):
        part = progs[g:g + per]
        nm = tag if split == 1 else f"{tag}_{g // per}"
        outs = [(f"L.eval({x.c})", x.f) for x in part]
        q = [r for x in part for r in x.req]

        def req(E, q=q):
            out = []
            for x, sg in q:
                m = x.f(E)
                out.append((m.get(0) if set(m.d) <= {0} else m.rnorm_sqr(), sg))
            return out
        Case(P, nm, space, [o for o, _ in ops], outs, pre=decl, requires=req if q else None, weight=weight, tier=tier)


def scal(n):
    o = operand("sc", n, 3)
    return o


A, B, C = arg(0, "x"), arg(1, "y"), arg(2, "z")
xyz = [(scal("x"), True), (scal("y"), True), (scal("z"), True)]
c3, c2, c5 = K(3), K(2), K(5)

# every rule of the addition of values
ADD = [A + A, A * B + A * B, 2 * A * B + A * B, A * B * C + B * C, B * C + A * B * C, A + 3 * A, 2 * A + 5 * A, 2 * A * B + 5 * A * B, A * B + A, A + A * B, A * B + A * C,
       A * B - B * A, A - A, A + B + C + A + B, (A + B) - (B + A), A * (B + C) - A * B, A * B * C - C * B * A, A + (B + A) * 2, 3 * (A - B) + (B - A),
       (B + A) + (C + B), C + B + A, C + (A + B), (A + C) + B, A * A + 2 * A * B + B * B - (A + B) * (A + B), -A + A * c2 / 3, A / 2 + A / 3, A / 3 + 2 * A / 5, 2 * A / 3 + 5 * A / 7]
CST = [K(2) + K(3), K(2) + K(1) / 3, K(1) / 3 + K(2), K(2) / 3 + K(1) / 5, K(1) / 5 + K(2) / 3, K(1) / 2 + K(1) / 3, K(2) / 3 + K(5) / 7, K(2) / 3 - K(5) / 7, K(1) / 2 - K(1) / 3, K(1) / 3 - K(1) / 2,
       K(-2) / 3 + K(2), K(1) / 3 - K(2), K(1) / 2 + K(1) / 2, K(1) / 6 + K(1) / 3, K(3) / 4 + K(1) / 4, K(3) / 4 - K(3) / 4, K(-1) / 4 - K(3) / 4, K(1) / 4 - K(3) / 8,
       K(2) * 3, K(2) * (K(1) / 3), K(1) / 2 * (K(1) / 3), K(4) * (K(1) / 6), (K(1) / 6) * 4, K(-4) / 6, K(4) / -6, K(-4) / -6, K(2) / 3 * (K(3) / 2), K(2) / 3 / (K(4) / 5), K(-1) / 3, K(-1) / -3]
CST = [A * x for x in CST]
CADD = [K(1) / 3 + A + K(2) / 5, A + K(1) / 2 + B - K(1) / 2, (K(1) / 2 + A) + (K(1) / 3 + B), K(2) + A + K(1) / 3, (A + K(2) / 3) * 3, (A + B / 2) * (K(2) / 3), K(5) + A - 5, (K(1) / 2) * A + (K(2) / 3) * A + A, A / 6 + A / 3 - A / 2]
MUL = [A * A, A * A * A, pw(A, 3) * A, A * pw(A, -1), pw(A, 2) * pw(A, 3), pw(A, 2) * pw(A, -2), A * 2 * 3, B * A, C * B * A, B * (A * C), (B * C) * A, (B * C) * (A * B), (A + B) * (A - B), (A + B) * (C + A), A * (B + C), (B + C) * A,
       A / B, A / B * B, A * B / A, (A / B) * (B / A), (A / B) * (C / B), A / (B * C), (A * B) / (B * C), (A + B) / C, 1 / A, 1 / A + 1 / B, A / B + B / A, A / B + C / B, 1 / (1 / A), (1 / A) * (1 / B), pw(A * B, -2), pw(A, -1) * pw(B, -1), A * B * pw(B, -1), pw(A * B, 2) * pw(B, -1),
       0 * A + B, A * (B - B), A * 1, -A * -B, -(-A), (-A) * B + A * B]
POW = [sqrt(A * A), sqrt(4 * A), sqrt(A * A * B * B), sqrt(8 * A), cbrt(8 * A), pw(sqrt(A), 2), sqrt(A) * sqrt(A), sqrt(A) * sqrt(B), sqrt(A * B) / sqrt(B), pw(A + B, 2), pw(A * B, 3), sqrt(pw(A - B, 2)), sqrt(A * A + B * B), pw(sqrt(A * B), 2), 
       sqrt(A * 4 / 9), sqrt(1 / A), pw(sqrt(A), -2), pw(sqrt(A), 4), A * sqrt(A) * sqrt(A), sqrt(A) + sqrt(A), sqrt(A) * B + B * sqrt(A), sqrt(pw(A, 4)), sqrt(pw(A, -2)), cbrt(A * A * A), cbrt(A * B) * cbrt(A * B) * cbrt(A * B), cbrt(A) * cbrt(A) * cbrt(A)]
NEG = [sqrt(-A), sqrt(-4 * A), sqrt(-A * B), sqrt(A * B * -9), sqrt(-A / 2), sqrt(A * B), cbrt(-8 * A), pw(-A, 3), pw(-A, 2), pw(-A, -1), pw(-2 * A, 2), pw(-2 * A, 3)]
FUN = [aabs(A * B), aabs(-A), aabs(A * A), aabs(-3 * A), aabs(A) * aabs(A), aabs(A) + A, aabs(aabs(A)), aabs(A - B) - aabs(B - A), fexp(A) * fexp(A), fexp(A + B) * 2 + fexp(B + A), fcos(A) * fcos(A) + fsin(A) * fsin(A), fcos(-A) - fcos(A), fsin(A) * B + B * fsin(A), flog(A * A), fexp(A - A), fcos(A * 0),
       fsin(A) / fcos(A), aabs(A / B), aabs(sqrt(aabs(A)) * B)]


def dedup(l):
    """Conditions of one group must be compatible: split programs by what they require."""
    g = {}
    for x in l:
        k = tuple(sorted({(y.c, tuple(sorted(s))) for y, s in x.req}))
        g.setdefault(k, []).append(x)
    return g


def groups(tag, space, ops, progs, size=8, weight=1, tier="quick"):
    free = []
    k = 0
    for key, part in dedup(progs).items():
        if not key:
            free += part
    for i in range(0, len(free), size):
        programs(f"{tag}_{k}", space, ops, free[i:i + size], weight, tier)
        k += 1
    for key, part in dedup(progs).items():
        if key:
            for i in range(0, len(part), size):
                programs(f"{tag}_{k}", space, ops, part[i:i + size], weight, tier)
                k += 1


# a factor of the radicand that is a square: where the other factors are non-negative, and (a known finding) where they are negative and the square vanishes
ROOT = [sqrt(A * A * B), sqrt(pw(A * B, 2) * C), sqrt(aabs(A) * B), sqrt(B * pw(A, 2) / C), sqrt(A * A * B * A * A), sqrt(pw(A, 6) * B)]
for k, x in enumerate(ROOT):
    x.req += ((B, PO), (C, PO))
ROOT0 = [sqrt(A * A * B)]
ROOT0[0].req += ((A, {0}), (B, {-1}))

groups("root", "ga2e", xyz, ROOT, 8)
groups("root_zero_negative", "ga2e", xyz, ROOT0, 8)
groups("add", "ga2e", xyz, ADD, 10)
groups("cst", "ga2e", xyz, CST, 15)
groups("cadd", "ga2e", xyz, CADD, 10)
groups("mul", "ga2e", xyz, MUL, 12)
groups("pow", "ga2e", xyz, POW, 8)
groups("neg", "ga2e", xyz, NEG, 8)
groups("fun", "ga2e", xyz, FUN, 8)


# multivectors: one lazy context, arguments of every kind of storage
def two(tag, space, n, kx, ky, progs, weight=1, tier="quick", size=8):
    ops = [(operand(kx, "x", n), True), (operand(ky, "y", n), True)]
    groups(tag, space, ops, progs, size, weight, tier)


LIN = [A + B, A - B, A * 2 - B / 3, A + A, 2 * A - A, A + B - A, (A + B) + (B - A), -A + B, rev(A) + A, A - invo(A), conj(A) + rev(B), rev(rev(A)) - A, tg(A, 1) + B, tg(A + B, 2), rev(A + B), conj(A - B) + conj(B)]
PRD = [A * B, A ^ B, A * B + B * A, A * B - B * A, (A + B) * (A - B), lcont(A, B) + rcont(B, A), dot(A, B), hip(A, B) - dot(A, B), sp_(A, B), sp_(A, rev(A)) + sp_(B, B), tg(A * B, 0), tg(A * B, 1), tg(A * B, 2), rnsq(A), rnsq(A + B), rev(A * B) - rev(B) * rev(A), A * rev(A), ~(A ^ B), invo(A) * invo(B) - invo(A * B),
       (A ^ B) + (B ^ A), A * B * A, rp(A, B), dual(A), undual(dual(A)), dual(A ^ B), lcont(A, dual(B)) , A * B + A * B, 2 * (A * B) - A * (B + B), (A * B) * 3 - A * (3 * B)]
KINDS = ("vec", "cb1", "cb21", "ub1", "ub12", "csum", "sum", "dv", "du", "db", "dg", "mix", "dsum", "sc", "kv2")
for s, n in (("ga2e", 2), ("ga1m", 3)):
    two(f"lin_{s}_full", s, n, "full", "full", LIN, 1.5, size=6)
    two(f"prd_{s}_full", s, n, "full", "full", PRD, 3, size=4)
two("prd_ga3e_vec", "ga3e", 3, "vec", "vec", PRD, 1.5, size=5)
two("prd_ga3e_kv2", "ga3e", 3, "kv2", "vec", PRD, 2, size=5)
two("prd_ga1c_vec", "ga1c", 3, "vec", "vec", PRD, 2, size=5)
two("prd_s111_vec", "s111", 3, "vec", "vec", [x for x in PRD if "dual" not in x.c], 2, size=5)

# operands of every kind, compile-time and run-time basis blades
MIXP = [A + B, A * B, A ^ B, lcont(A, B), B * A - A * B, tg(A * B, 0), rev(A * B), rnsq(A) * B, A * 2 - B, dot(B, A)]
for k, (kx, ky) in enumerate([("cb1", "cb21"), ("ub1", "vec"), ("vec", "ub12"), ("csum", "vec"), ("sum", "csum"), ("dv", "vec"), ("vec", "du"), ("db", "cb1"), ("dg", "sum"), ("mix", "dv"), ("dv", "dv"), ("db", "dv"), ("ub12", "nb21"), ("sc", "vec"), ("ic", "vec"), ("native", "vec")]):
    if kx == "native":
        continue
    two(f"mix{k}_{kx}_{ky}", "ga3e", 3, kx, ky, MIXP, 1.5, size=5)
    if kx in ("dv", "db", "mix"):
        two(f"mixm{k}_{kx}_{ky}", "ga1m", 3, kx, ky, MIXP, 1.5, "thorough", size=5)

# an argument given twice
Case(P, "twice", "ga3e", [operand("vec", "x", 3), operand("vec", "y", 3)], [(f"L.eval({x.c})", lambda E, x=x: x.f(E)) for x in
     (lambda a, b, c: (a * b - b * a + c, (a + b) * c, (a ^ c) + (c ^ b), a - b, a * a * c))(arg(0, "x"), X("L.argument<1>()", lambda E: E.x), arg(2, "y"))],
     pre="auto L = make_lazy_context(x, x, y);")
Case(P, "tuple", "ga3e", [operand("vec", "x", 3), operand("kv2", "y", 3), operand("sc", "z", 3)],
     [("L.eval(u * v + w)", lambda E: E.x.gp(E.y) + E.z), ("L.eval((v ^ u) * w)", lambda E: (E.y ^ E.x).gp(E.z)), ("L.eval(u)", lambda E: E.x), ("L.eval(w)", lambda E: E.z), ("L.eval(c<2> + w)", lambda E: E.s(2) + E.z)],
     pre="auto const [L, u, v, w] = make_lazy_context_tuple(x, y, z);", weight=1.5)

# a context all of whose arguments are arguments of another (what a library function with a context of its own sees when it is called lazily)
N0, N1 = X("M.argument<0>()", lambda E: E.x), X("M.argument<1>()", lambda E: E.y + E.x)
NEST = [N0 * N1, N0 + N1, N1 * N0 + B, (N0 + B) * N1, N1 - N0, N1 * N1 * A, (N0 ^ N1) + (B ^ N1), N1, N0, N1 * 2 + N0 * 3, N1 * N1, B * N0]
NPRE = "auto L = make_lazy_context(x, y); auto M = make_lazy_context(L.argument<0>(), L.argument<1>() + L.argument<0>());"
for tag, kx, ky in (("vec", "vec", "vec"), ("sc", "sc", "sc"), ("kv", "vec", "kv2"), ("full", "full", "full"), ("dyn", "dv", "vec"), ("dyn2", "vec", "dv"), ("mix", "mix", "sc")):
    for g in range(0, len(NEST), 6):
        Case(P, f"nested_{tag}_{g // 6}", "ga2e" if tag == "full" else "ga3e", [operand(kx, "x", 3), operand(ky, "y", 3)],
             [(f"L.eval(M.eval({x.c}))", x.f) for x in NEST[g:g + 6]], pre=NPRE, weight=3 if tag in ("full", "dyn") else 1.5)
NSC = [sqrt(N1 * N1) * N0, N1 / N0, N0 / N1, aabs(N0 * N1), pw(N1, 2) * pw(N0, 2), pw(N0 * N1, -1), aabs(N1) + aabs(A), (N0 + N1) / (B + N1), fcos(N1) * fcos(N0), N1 * (N0 + 2) - N0 * N1, sqrt(aabs(N0) + aabs(N1)), N1 * N0 * N1 * B]
for k, (key, part) in enumerate(dedup(NSC).items()):
    q = [r for x in part for r in x.req]
    Case(P, f"nested_scalar_{k}", "ga3e", [scal("x"), scal("y")], [(f"L.eval(M.eval({x.c}))", x.f) for x in part], pre=NPRE,
         requires=lambda E, q=q: [(x.f(E).get(0), sg) for x, sg in q])


# programs drawn once and for all from the grammar
def draw(rng, depth, leaves, scalar):
    if depth == 0:
        return rng.choice(leaves) if rng.random() < .8 else K(rng.choice([-3, -2, -1, 1, 2, 3, 5]))
    o = rng.random()
    a = draw(rng, depth - 1, leaves, scalar)
    if o < .15:
        return -a
    b = draw(rng, rng.randrange(depth), leaves, scalar)
    if o < .45:
        return a + b
    if o < .6:
        return a - b
    if o < .85:
        return a * b
    if scalar:
        return a / rng.choice([2, 3, -2, 4, 6]) if o < .93 else pw(a, rng.choice([2, 3]))
    return rng.choice([a ^ b, rev(a), a + invo(b), lcont(a, b), a * K(2) / 3])


def batch(seed, n, depth, leaves, scalar):
    rng = random.Random(seed)
    out = []
    while len(out) < n:
        x = draw(rng, depth, leaves, scalar)
        if len(x.c) < 900 and "argument" in x.c:
            out.append(x)
    return out


for k in range(24):
    groups(f"gen_scalar_d{3 + k % 3}_{k}", "ga2e", xyz, batch(700 + k, 10, 3 + k % 3, [A, B, C], True), 10, 1.5, "quick" if k < 9 else "thorough")
vvv = [(operand("vec", "x", 2), True), (operand("vec", "y", 2), True), (operand("sc", "z", 2), True)]
for k in range(24):
    groups(f"gen_vec_d{2 + k % 2}_{k}", "ga2e", vvv, batch(900 + k, 6, 2 + k % 2, [A, B, C], False), 6, 2, "quick" if k < 8 else "thorough")

# library functions called with lazy arguments
rnorm = fn("rnorm", lambda m: MV(m.sp, {0: S.s_sqrt(m.rnorm_sqr())}))
unit_ = fn("unit", lambda m: m.scale(S.ONE / S.s_sqrt(S.s_abs(m.rnorm_sqr()))), NZ)
cp = fn2("cp", lambda E, a, b: (a.gp(b) - b.gp(a)).scale(RF.const(Fraction(1, 2))))
vers = fn("inv", lambda m: m.versor_inverse(), NZ)
refl = fn2("apply_odd_versor", lambda E, v, m: v.gp(m.inv_()).gp(v.versor_inverse()))
igp = fn2("igp", lambda E, a, b: a.gp(b.versor_inverse()))
AB = igp(A, B)
AB.req += ((B, NZ),)
LIB = [rnorm(A), rnorm(A - B), unit_(A), AB, vers(A), rnorm(A) * B, cp(A, B), cp(A, B) + cp(B, A), unit_(A) * rnorm(A) - A, AB * B, vers(A) * A, rnsq(A * B), inv(A * 2)]
LIB[-1].req += ((A, NZ),)
vv = [(operand("vec", "x", 3), True), (operand("vec", "y", 3), True)]
groups("lib", "ga3e", vv, LIB, 4, 2)
lr = refl(A, B)
lr.req += ((A, NZ),)
groups("libv", "ga3e", vv, [lr], 4, 2)


def ex(E, B, t):
    """Closed form of the exponential of a B with scalar square (as in P14)."""
    s = B.sprod(B)
    a2 = S.s_abs(s)
    if s.is_zero() or E.le(a2, t):
        return E.s(1) + B
    a = S.s_sqrt(a2)
    if E.le(s, 0):
        return E.s(S.s_fun("cos", a)) + B.scale(S.s_fun("sin", a) / a)
    return E.s(S.s_fun("cosh", a)) + B.scale(S.s_fun("sinh", a) / a)


tol = operand("sc", "z", 3)
for s, kx in (("ga3e", "vec"), ("ga3e", "kv2"), ("ga1m", "vec"), ("ga1m", "kv2"), ("ga1c", "cb21"), ("ga3e", "dv"), ("ga2e", "cb1")):
    n = 2 if s == "ga2e" else 3
    Case(P, f"exp_{s}_{kx}", s, [operand(kx, "x", n), operand("vec", "y", n), tol],
         [("L.eval(exp(L.argument<0>(), L.argument<2>()))", lambda E: ex(E, E.x, E.z.get(0))), ("L.eval(exp(L.argument<0>() * c<2>, L.argument<2>()) * L.argument<1>())", lambda E: ex(E, E.x.scale(RF.const(2)), E.z.get(0)).gp(E.y))],
         pre="auto L = make_lazy_context(x, y, z);", requires=lambda E: [(E.z.get(0), {0, 1})], weight=2)
    Case(P, f"expn_{s}_{kx}", s, [operand(kx, "x", n), operand("vec", "y", n), tol],
         [("L.eval(M.eval(exp(M.argument<0>(), M.argument<1>())))", lambda E: ex(E, E.x, E.z.get(0)))],
         pre="auto L = make_lazy_context(x, y, z); auto M = make_lazy_context(L.argument<0>(), L.argument<2>());", requires=lambda E: [(E.z.get(0), {0, 1})], weight=2)
# the inner context has a stored argument of its own, which the program does not use
for s, kx in (("ga3e", "kv2"), ("ga1m", "vec"), ("ga1m", "kv2"), ("ga3e", "dv")):
    Case(P, f"expu_{s}_{kx}", s, [operand(kx, "x", 3), operand("vec", "y", 3), tol],
         [("L.eval(M.eval(exp(M.argument<0>(), M.argument<1>())))", lambda E: ex(E, E.x, E.z.get(0))), ("L.eval(M.eval(M.argument<0>() * c<2>))", lambda E: E.x.scale(RF.const(2)))],
         pre="auto L = make_lazy_context(x, z); auto M = make_lazy_context(L.argument<0>(), L.argument<1>(), y);", requires=lambda E: [(E.z.get(0), {0, 1})], weight=2)
