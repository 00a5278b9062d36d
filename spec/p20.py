"""P20: products of basis blades in every dimension, for every run-time set of basis vectors."""
from spec._lib import *
from gatlver.bits import BCase, BV, popcount
from gatlver.space import SP
from gatlver import sym as S, bits

P = "P20"
I63 = (1 << 63) - 1


def blade(name, N, lo=0, hi=None):
    """$0 times a basis blade whose basis vectors are the bits of a run-time number."""
    return Operand(name, f"ga::scaled_basis_blade_t<double, {lo}, {N if hi is None else hi}>(ga::make_sequential_storage($0), ga::make_sequential_storage((ga::bitset_t)#0))",
                   lambda E, r, i, q: E.mv({i[0]: r[0]}), real=1, idx=1, dom=[["bits"]])


def cblade(name, bits):
    """$0 times a constant basis blade."""
    return Operand(name, f"ga::scaled_constant_basis_blade_t<double{''.join(f', {k + 1}' for k in range(64) if bits >> k & 1)}>(ga::make_sequential_storage($0))", lambda E, r, i, q: E.mv({bits: r[0]}), real=1)


BIN = {"gp": ("gp", lambda x, y: x.gp(y)), "op": ("op", lambda x, y: x ^ y), "lcont": ("lcont", lambda x, y: x.lcont(y)), "rcont": ("rcont", lambda x, y: x.rcont(y)), "dot": ("dot", lambda x, y: x.dot(y)),
       "hip": ("hip", lambda x, y: x.hip(y)), "sp": ("sp_", lambda x, y: x.sp_(y)), "rp": ("rp", lambda x, y: x.rp(y))}


def bin2(f, a=0, b=1, text=None):
    """f(x, y) of blades a and b (numbers: positions among the run-time blades, hexadecimal strings: constant blades)."""
    m, c = BIN[f]

    def get(d, k):
        return d.b[k] if isinstance(k, int) else BV.const(64, int(k, 16))

    def sym(d):
        s, bits = getattr(d, m)(get(d, a), get(d, b))
        return [(d.r[0] * d.r[1] * s, bits)]
    return (text or f"{f}(x, y)", sym, lambda E: c(E.x, E.y))


for s in ("s63", "s63m", "s12"):
    for f in BIN:
        N = SP[s].n
        BCase(P, f"{f}_{s}", s, [blade("x", N), blade("y", N)], [bin2(f)], weight=1 if f != "rp" else 8)

# one constant basis blade
CB = {"s63": [0x5A5A_0F0F_1234_5678, 0x7FFF_FFFF_FFFF_FFFF, 1 << 62, 0], "s63m": [0x7123_4567_89AB_CDEF & I63, 0x4000_0000_8000_0001], "s12": [0xB6D, 0x800]}
for s, bs in CB.items():
    N = SP[s].n
    for k, cb in enumerate(bs):
        for f in BIN:
            BCase(P, f"{f}_{s}_cx{k}", s, [cblade("x", cb), blade("y", N)], [bin2(f, hex(cb), 0)], tier="quick" if k < 2 and s != "s12" else "thorough")
            BCase(P, f"{f}_{s}_cy{k}", s, [blade("x", N), cblade("y", cb)], [bin2(f, 0, hex(cb))], tier="quick" if k < 2 and s != "s12" else "thorough")

def un(text, m, c):
    def sym(d):
        s, bits = m(d)
        return [(d.r[0] * s, bits)]
    return (text, sym, c)


UN = [un("reverse(x)", lambda d: d.rev(d.b[0]), lambda E: E.x.rev()), un("involute(x)", lambda d: d.inv_(d.b[0]), lambda E: E.x.inv_()), un("conjugate(x)", lambda d: d.conj(d.b[0]), lambda E: E.x.conj()),
      un("-x", lambda d: (-1, d.b[0]), lambda E: -E.x), un("~x", lambda d: d.rev(d.b[0]), lambda E: E.x.rev()), un("x * 3.0", lambda d: (3, d.b[0]), lambda E: E.x * 3), un("2 * x", lambda d: (2, d.b[0]), lambda E: E.x * 2)]
for s in ("s63", "s12"):
    N = SP[s].n
    for k, u in enumerate(UN):
        BCase(P, f"un{k}_{s}", s, [blade("x", N)], [u])

def dual(d, un):
    s, b = d.gp(d.b[0], BV.const(64, d.I))
    if not un:
        s = s * (-1 if d.N * (d.N - 1) // 2 % 2 else 1) * (-1 if bin(d.neg).count("1") % 2 else 1)
    return [(d.r[0] * s, b)]


# the dual of a blade in a non-degenerate space
for s in ("s63", "s62m"):
    BCase(P, f"dual_{s}", s, [blade("x", SP[s].n)], [("dual(x)", lambda d: dual(d, 0), lambda E: E.x.dual()), ("undual(x)", lambda d: dual(d, 1), lambda E: E.x.undual())])

# sums of blades: like terms merge, wherever the bits coincide
for s in ("s63",):
    N = SP[s].n
    add = lambda sg: (lambda d: [(d.r[0] + sg * d.r[1], d.b[0])] if d.zero(d.b[0] ^ d.b[1]) else [(d.r[0], d.b[0]), (sg * d.r[1], d.b[1])])
    BCase(P, f"add_{s}", s, [blade("x", N), blade("y", N)], [("x + y", add(1), lambda E: E.x + E.y), ("x - y", add(-1), lambda E: E.x - E.y)])

# squares: signs of the reverse norm
for s in ("s63", "s63m"):
    N = SP[s].n

    def rn(d):
        return [(d.r[0] * d.r[0] * (0 if d.nul and not d.zero(d.b[0] & d.nul) else d.sgn(d.par(d.b[0] & d.neg))), BV.const(64, 0))]
    BCase(P, f"rnorm_{s}", s, [blade("x", N)], [("rnorm_sqr(x)", rn, lambda E: E.x.rnorm_sqr())])

# grades
for s in ("s63",):
    N = SP[s].n
    BCase(P, f"grade_{s}", s, [Operand("x", "ga::scaled_basis_blade_t<double, 0, 63>(ga::make_sequential_storage(2.0), ga::make_sequential_storage((ga::bitset_t)#0))",
                                       lambda E, r, i, q: E.mv({i[0]: 2}), idx=1, dom=[["bits"]])],
          [("!vf_emit(@, (long)grade(x), 1.0);", lambda d: [(S.ONE, popcount(d.b[0], 64))], lambda E: E.mv({bin(E.i['x'][0]).count('1'): 1}))])
    for g in (0, 1, 31, 63):
        BCase(P, f"take_grade{g}_{s}", s, [blade("x", N)], [(f"take_grade(x, c<{g}>)", lambda d, g=g: [(d.r[0], d.b[0])] if d.grade(d.b[0]) == g else [], lambda E, g=g: E.x.grades(g))])

# the functions that bit-level computations are made of, for every argument of their domain
W = Operand("w", "(ga::bitset_t)#0", None, idx=1, dom=[["bits"]])
U = Operand("u", "(ga::bitset_t)#0", None, idx=1, dom=[["bits"]])


def raw(text, sym, num):
    return (f"!vf_emit(@, (long)({text}), 1.0);", lambda d: [(S.ONE, sym(d))], lambda E: E.mv({num(E): 1}))


def nat(E, k=0):
    return E.idx[k]


H = []
H.append(BCase(P, "ones", "s63", [W], [raw("ga::detail::ones(w)", lambda d: popcount(d.b[0], 64), lambda E: bin(nat(E)).count("1"))]))
H.append(BCase(P, "swaps_count", "s63", [W, U], [raw("ga::detail::swaps_count(w, u)", lambda d: d.swapcount(d.b[0], d.b[1]), lambda E: sum(bin((nat(E) >> k) & nat(E, 1)).count("1") for k in range(64)))]))
for k in range(0, 64, 7):
    H.append(BCase(P, f"rightmost{k}", "s63", [W], [(f"!vf_emit(@, (long)(ga::detail::rightmost_set_bit((((w << 1) | 1) << {k}))), 1.0);", lambda d, k=k: [(S.ONE, BV.const(64, 1 << k))], lambda E, k=k: E.mv({1 << k: 1}))], weight=.3))
for nm, txt, dom, f in (("set_bit_index", "ga::detail::set_bit_index((ga::bitset_t)1 << #0)", range(64), lambda k: k),
                        ("first_combination", "ga::detail::first_combination(#0)", range(64), lambda k: (1 << k) - 1),
                        ("leftmost_pow", "ga::detail::leftmost_set_bit((ga::bitset_t)1 << #0)", range(64), lambda k: 1 << k)):
    H.append(Case(P, nm, "s63", [Operand("z", None, None, idx=1, dom=[dom])], [(f"!vf_emit(@, (long)({txt.replace('#0', 'n[0]')}), 1.0);", lambda E, f=f: {f(E.idx[0]): 1})]))

for h in H:
    h.internal = True

# both blades constant: the reordering happens at compile time
import random
rng = random.Random(63)
for k in range(12):
    a = rng.getrandbits(63)
    b = [rng.getrandbits(63), a, a ^ I63, a & rng.getrandbits(63), 1 << 62, 1 << rng.randrange(63)][k % 6]
    if k >= 6:
        a, b = b, a
    for f in BIN:
        Case(P, f"{f}_const{k}", "s63m" if k % 2 else "s63", [cblade("x", a), cblade("y", b)], [(f"{f}(x, y)", lambda E, f=f: BIN[f][1](E.x, E.y))], weight=.4, tier="quick" if k % 6 < 4 or f in ("gp", "op") else "thorough")

for k in range(8):
    a = rng.getrandbits(63) if k % 2 else rng.getrandbits(63) | rng.getrandbits(63)
    Case(P, f"un_const{k}", "s63", [cblade("x", a)], [("reverse(x)", lambda E: E.x.rev()), ("involute(x)", lambda E: E.x.inv_()), ("conjugate(x)", lambda E: E.x.conj()), ("rnorm_sqr(x)", lambda E: E.x.rnorm_sqr()),
                                                        (f"take_grade(x, c<{bin(a).count('1')}>)", lambda E: E.x), ("-x", lambda E: -E.x)], weight=.4)

# three blades: products of products
def gp3(d):
    s, b = d.gp(d.b[0], d.b[1])
    t, c = d.gp(b, d.b[2])
    return [(d.r[0] * d.r[1] * d.r[2] * s * t, c)]


def gp3r(d):
    s, b = d.gp(d.b[1], d.b[2])
    t, c = d.gp(d.b[0], b)
    return [(d.r[0] * d.r[1] * d.r[2] * s * t, c)]


def op3(d):
    s, b = d.op(d.b[0], d.b[1])
    if s == 0:
        return []
    t, c = d.op(b, d.b[2])
    return [(d.r[0] * d.r[1] * d.r[2] * s * t, c)]


for s in ("s63", "s12"):
    N = SP[s].n
    o = [blade("x", N), blade("y", N), blade("z", N)]
    BCase(P, f"gp3_{s}", s, o, [("gp(gp(x, y), z)", gp3, lambda E: E.x.gp(E.y).gp(E.z))], weight=8)
    BCase(P, f"gp3r_{s}", s, o, [("gp(x, gp(y, z))", gp3 if s == "s63" else gp3r, lambda E: E.x.gp(E.y).gp(E.z))], weight=8)
    BCase(P, f"op3_{s}", s, o, [("op(op(x, y), z)", op3, lambda E: E.x ^ E.y ^ E.z)], weight=8, tier="thorough" if s == "s63" else "quick")
for s in ("s63", "s62m"):
    N = SP[s].n
    nz = lambda E: [(E.r["x"][0], {-1, 1})]
    BCase(P, f"inv_{s}", s, [blade("x", N)], [("inv(x)", lambda d: [(S.ONE / d.r[0] * d.sgn(d.par(d.b[0] & d.neg) ^ bits.bit2(popcount(d.b[0], 64))), d.b[0])], lambda E: E.x.versor_inverse())], requires=nz)
    BCase(P, f"igp_{s}", s, [blade("y", N), blade("x", N)], [("igp(y, x)", lambda d: [(d.r[0] / d.r[1] * d.sgn(d.par(d.b[1] & d.neg) ^ bits.bit2(popcount(d.b[1], 64))) * d.gp(d.b[0], d.b[1])[0], d.b[0] ^ d.b[1])],
                                                                lambda E: E.y.gp(E.x.versor_inverse()))], requires=nz, weight=4)
