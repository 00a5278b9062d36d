"""P16: meet, join and plunge of blades in every relative position."""
from spec._lib import *
from gatlver.verify import span

P = "P16"
Tol = Operand("t", "$0", lambda E, r, i, q: E.s(r[0]), real=1)
Tol.eps = 1e-9


def req(*more):
    def f(E):
        out = [(E.r["t"][0], {0})]
        for m in more:
            out += m(E)
        return out
    return f


def nz(E, *xs):
    """Non-zero operands."""
    for x in xs:
        if all(E.zero(c) for c in x.d.values()):
            raise ZeroDivisionError


def zero(E, m):
    return all(E.zero(c) for c in m.d.values() if not c.is_zero())


def jm_vv(E):
    x, y = E.x, E.y
    nz(E, x, y)
    j = x ^ y
    if not zero(E, j):
        return E.s(1), j
    return x, x


def jm_vb(E, x, y):
    nz(E, x, y)
    j = x ^ y
    if not zero(E, j):
        return E.s(1), j
    return x, y


def jm_bb3(E):
    """Two bivectors of a three-dimensional space."""
    x, y = E.x, E.y
    nz(E, x, y)
    m = x.rp(y)
    if not zero(E, m):
        return m, E.I
    return x, x


PAIRS = {"vv2": ("ga2e", "vec", "vec", jm_vv), "vv3": ("ga3e", "vec", "vec", jm_vv), "vb3": ("ga3e", "vec", "kv2", lambda E: jm_vb(E, E.x, E.y)), "bv3": ("ga3e", "kv2", "vec", lambda E: jm_vb(E, E.y, E.x)), "bb3": ("ga3e", "kv2", "kv2", jm_bb3)}
N = {"ga2e": 2, "ga3e": 3, "ga4e": 4}
W = {"vv2": 2, "vv3": 12, "vb3": 55, "bv3": 55, "bb3": 55}


def plunge(E, j):
    return span(E, E.y.lcont(j) ^ E.x.lcont(j))


def family(nm, s, ox, oy, jm, w, fast=True, tier="quick", heavy=None, hplg=None):
    ops = [ox, oy, Tol]
    J = lambda E: span(E, jm(E)[1])
    M = lambda E: span(E, jm(E)[0])
    heavy = heavy or tier
    hplg = hplg or heavy
    if fast:
        Case(P, f"fast_join_{nm}", s, ops, [("fast_join(x, y, t)", J)], requires=req(), weight=w / 4, tier=tier)
        Case(P, f"fast_meet_{nm}", s, ops, [("std::get<0>(fast_meet_and_join(x, y, t))", M), ("std::get<1>(fast_meet_and_join(x, y, t))", J)], requires=req(), weight=w / 3, tier=tier)
    Case(P, f"meet_{nm}", s, ops, [("std::get<0>(meet_and_join(x, y, t))", M), ("std::get<1>(meet_and_join(x, y, t))", J)], requires=req(), weight=w, tier=heavy)
    PL = lambda E: plunge(E, jm(E)[1])
    if fast:
          Case(P, f"fast_plunge_{nm}", s, ops, [("fast_plunge(x, y, t)", PL)], requires=req(), weight=w / 3, tier="thorough" if nm == "vv3" else tier)
    Case(P, f"plunge_{nm}", s, ops, [("plunge(x, y, t)", PL)], requires=req(), weight=w, tier=hplg)


for nm, (s, kx, ky, jm) in PAIRS.items():
    family(nm, s, operand(kx, "x", N[s]), operand(ky, "y", N[s]), jm, W[nm], heavy="thorough" if nm in ("vb3", "bv3", "bb3") else "quick")


def sparse(name, *blades):
    """A sum of the given basis blades with arbitrary coefficients."""
    return Operand(name, " + ".join(f"$%d * (%s)" % (k, " ^ ".join(f"e(c<{i}>)" for i in b)) for k, b in enumerate(blades)),
                   lambda E, r, i, q: sum((E.e(*b) * r[k] for k, b in enumerate(blades)), E.s(0)), real=len(blades))


def same(E, x, y):
    """y is a multiple of x on this path."""
    bx = [b for b in sorted(set(x.d) | set(y.d))]
    for i, b in enumerate(bx):
        for c in bx[i + 1:]:
            if not E.zero(x.get(b) * y.get(c) - x.get(c) * y.get(b)):
                return False
    return True


def shared(E, d):
    """Two planes through the direction d."""
    nz(E, E.x, E.y)
    if same(E, E.x, E.y):
        return E.x, E.x
    u, v = d.lcont(E.x), d.lcont(E.y)
    return d, d ^ u ^ v


def line4(E):
    """x = e1 ^ (a e2 + b e3), y = (a e2 + b e3) ^ e4 up to factors when they meet."""
    nz(E, E.x, E.y)
    j = E.x ^ E.y
    if not zero(E, j):
        return E.s(1), E.I
    m = E.e(1).lcont(E.x)
    return m, E.e(1) ^ m ^ E.e(4)


family("vv4s", "ga4e", sparse("x", (1,), (4,)), sparse("y", (1,), (4,)), jm_vv, 4)
family("vv4t", "ga4e", sparse("x", (1,), (2,)), sparse("y", (2,), (4,)), jm_vv, 4)
family("bb4s", "ga4e", sparse("x", (1, 2), (1, 3)), sparse("y", (1, 2), (1, 4)), lambda E: shared(E, E.e(1)), 20)
family("bb4d", "ga4e", sparse("x", (1, 2), (1, 3)), sparse("y", (2, 4), (3, 4)), line4, 20)
family("vb4", "ga4e", sparse("x", (1,), (2,), (4,)), sparse("y", (1, 2)), lambda E: jm_vb(E, E.x, E.y), 10)
family("vt4", "ga4e", sparse("x", (1,), (4,)), sparse("y", (1, 2, 3), (2, 3, 4)), lambda E: jm_vb(E, E.x, E.y), 10)
family("vb3s", "ga3e", sparse("x", (1,), (3,)), sparse("y", (1, 2), (2, 3)), lambda E: jm_vb(E, E.x, E.y), 10)
family("bv3s", "ga3e", sparse("x", (1, 2), (2, 3)), sparse("y", (1,), (3,)), lambda E: jm_vb(E, E.y, E.x), 10)
family("bb3s", "ga3e", sparse("x", (1, 2), (2, 3)), sparse("y", (1, 2), (1, 3)), jm_bb3, 12)
family("sv3", "ga3e", operand("sc", "x", 3), operand("vec", "y", 3), lambda E: jm_vb(E, E.x, E.y), 4, fast=False)
family("pv3", "ga3e", operand("ps", "x", 3), operand("vec", "y", 3), lambda E: jm_vb(E, E.y, E.x), 4, fast=False)
# the overloads without a tolerance are those with the default tolerance (operands clearly above it)
BIG = lambda E: [(E.x.get(1) - RF.const(1), {1}), (E.y.get(max(E.y.d)) - RF.const(1), {1})]
for nm, s, ox, oy, w in (("vv2", "ga2e", operand("vec", "x", 2), operand("vec", "y", 2), 3), ("vb3", "ga3e", operand("cb1", "x", 3), sparse("y", (1, 2), (2, 3)), 3)):
    for f in ("fast_join", "fast_plunge", "plunge"):
        for k, g in enumerate((f"{f}(x, y)", f"ga::{f}(x, y, space)")):
            Case(P, f"default{k}_{f}_{nm}", s, [ox, oy], [(f"{g} - {f}(x, y, 1.0e-8)", lambda E: E.s(0))], requires=BIG, weight=w, tier="thorough" if nm == "vb3" else "quick")
    for f in ("fast_meet_and_join", "meet_and_join"):
        for k, g in enumerate((f"{f}(x, y)", f"ga::{f}(x, y, space)")):
            Case(P, f"default{k}_{f}_{nm}", s, [ox, oy], [(f"std::get<{j}>({g}) - std::get<{j}>({f}(x, y, 1.0e-8))", lambda E: E.s(0)) for j in (0, 1)], requires=BIG, weight=w, tier="thorough" if nm == "vb3" else "quick")


# blades given by their factors, in more dimensions and other metric spaces
def vblade(name, n, *vs):
    """The exterior product of vectors; each is a list of (basis vector, "p" for a parameter or a constant)."""
    k = 0
    txt = []
    for v in vs:
        u = []
        for i, c in v:
            if c == "p":
                u.append(f"$" + f"{k} * e(c<{i}>)")
                k += 1
            else:
                u.append(f"{c} * e(c<{i}>)")
        txt.append("(" + " + ".join(u) + ")")

    def factors(E, r):
        j = 0
        out = []
        for v in vs:
            w = E.s(0)
            for i, c in v:
                if c == "p":
                    w = w + E.e(i) * r[j]
                    j += 1
                else:
                    w = w + E.e(i) * c
            out.append(w)
        return out

    def mv(E, r, i, q):
        w = E.s(1)
        for v in factors(E, r):
            w = w ^ v
        return w
    o = Operand(name, " ^ ".join(txt), mv, real=k)
    o.factors = factors
    return o


def jm_factors(ox, oy, eu):
    def jm(E):
        nz(E, E.x, E.y)
        j = E.x
        for v in oy.factors(E, E.r["y"]):
            w = j ^ v
            if not zero(E, w):
                j = w
        J, x, y = with_space(j, eu), with_space(E.x, eu), with_space(E.y, eu)
        m = (x.lcont(J) ^ y.lcont(J)).lcont(J)
        return with_space(m, E.x_space), j
    return jm


V = lambda *ic: list(ic)
U = lambda i: [(i, 1)]
FACT = {
    "tt5a": ("ga5e", (U(1), U(2), [(3, "p"), (5, "p")]), (U(2), U(3), U(4))),
    "tt5b": ("ga5e", (U(1), U(2), U(3)), ([(1, 1), (4, "p")], [(2, 1), (5, "p")], U(3))),
    "bt5": ("ga5e", (U(1), U(2)), ([(1, "p"), (3, "p")], U(4), U(5))),
    "tb5": ("ga5e", (U(2), [(1, "p"), (4, "p")], U(3)), (U(4), U(5))),
    "qb5": ("ga5e", (U(1), U(2), U(3), U(4)), ([(1, "p"), (5, "p")], U(2))),
    "qq5": ("ga5e", (U(1), U(2), U(3), U(4)), (U(1), U(2), U(3), [(4, "p"), (5, "p")])),
    "vq5": ("ga5e", ([(1, "p"), (5, "p")],), (U(1), U(2), U(3), U(4))),
    "bb4f": ("ga4e", ([(1, 1), (3, "p")], [(2, 1), (4, "p")]), (U(1), U(2))),
    "tt4": ("ga4e", (U(1), U(2), [(3, "p"), (4, "p")]), (U(1), U(3), U(4))),
    "bb4m": ("s130", (U(1), [(2, "p"), (3, "p")]), ([(3, "p"), (1, "p")], U(4))),
    "vb4m": ("s130", ([(1, "p"), (4, "p")],), (U(1), [(2, 1), (4, 2)])),
    "bb4c": ("ga2c", (U(3), [(1, 1), (4, "p")]), (U(3), [(2, 1), (4, "p")])),
}
for nm, (s, fx, fy) in FACT.items():
    from gatlver.space import SP
    n = SP[s].n
    ox, oy = vblade("x", n, *fx), vblade("y", n, *fy)
    eu = f"ga{n}e"

    def jm(E, ox=ox, oy=oy, eu=eu, s=s):
        E.x_space = s
        return jm_factors(ox, oy, eu)(E)

    def pl(E, jm=jm, s=s):
        j = jm(E)[1]
        if zero(E, j.sp_(j)):
            raise ZeroDivisionError     # no dual by a null join
        return span(E, E.y.lcont(j) ^ E.x.lcont(j))
    ops = [ox, oy, Tol]
    J = lambda E, jm=jm: span(E, jm(E)[1])
    M = lambda E, jm=jm: span(E, jm(E)[0])
    tier = "quick" if nm in ("tt5a", "tb5", "qq5", "bb4m", "bb4c") else "thorough"
    Case(P, f"fast_join_{nm}", s, ops, [("fast_join(x, y, t)", J)], requires=req(), weight=3, tier=tier)
    Case(P, f"fast_meet_{nm}", s, ops, [("std::get<0>(fast_meet_and_join(x, y, t))", M), ("std::get<1>(fast_meet_and_join(x, y, t))", J)], requires=req(), weight=4)
    Case(P, f"meet_{nm}", s, ops, [("std::get<0>(meet_and_join(x, y, t))", M), ("std::get<1>(meet_and_join(x, y, t))", J)], requires=req(), weight=8)
    Case(P, f"fast_plunge_{nm}", s, ops, [("fast_plunge(x, y, t)", pl)], requires=req(), weight=4, tier=tier)
    Case(P, f"plunge_{nm}", s, ops, [("plunge(x, y, t)", pl)], requires=req(), weight=8)
