"""P17: constructors put every coefficient on the basis blade it belongs to."""
from spec._lib import *
from gatlver.space import SP
from fractions import Fraction as F

P = "P17"


def coords(name, n, T="$"):
    return Operand(name, None, lambda E, r, i, q: vec(E, r), real=n)


def vec(E, r, q=None):
    m = E.s(0)
    for k, x in enumerate(r):
        m = m + E.e(k + 1) * x
    return m


ALLSP = ["ga1e", "ga2e", "ga3e", "ga4e", "ga5e", "ga1h", "ga2h", "ga3h", "ga4h", "ga1m", "ga2m", "ga3m", "ga1c", "ga2c", "ga3c", "ga1p", "ga2p", "ga3p", "ga4p", "s211", "g3f", "s121"]
for s in ALLSP:
    n = SP[s].n
    outs = [("vector(" + ", ".join(f"x[{k}]" for k in range(n)) + ")", lambda E: E.u),
            ("vector(x, x + %d)" % n, lambda E: E.u),
            ("!{ std::array<double, %d> y; for (int k = 0; k < %d; ++k) y[k] = x[k]; vf_put(@, vector(y.begin(), y.end())); vf_put(o, 3, vector(y.cbegin(), y.cend())); }" % (n, n), lambda E: E.u),
            ("!", lambda E: E.u),
            ("pseudoscalar()", lambda E: E.I), ("I", lambda E: E.I) if not s.startswith("g3") else ("pseudoscalar()", lambda E: E.I)]
    for k in range(1, n + 1):
        outs.append((f"e(c<{k}>)", lambda E, k=k: E.e(k)))
        outs.append((f"e({k})", lambda E, k=k: E.e(k)))
    if not s.startswith(("s", "g3")):
        outs += [(nm, lambda E, k=k: E.e(k + 1)) for k, nm in enumerate(SP[s].names)]
        if s[0:2] == "ga" and s[-1] == "c":
            outs += [("1.0 * ep", lambda E, n=n: E.e(n) * F(1, 2) - E.e(n - 1)), ("1.0 * em", lambda E, n=n: E.e(n) * F(1, 2) + E.e(n - 1)),
                     ("ep", lambda E, n=n: E.e(n) * F(1, 2) - E.e(n - 1)), ("em", lambda E, n=n: E.e(n) * F(1, 2) + E.e(n - 1))][:2]
        if s[-1] == "m":
            outs += [("1.0 * no", lambda E, n=n: (E.e(n) - E.e(n - 1)) * F(1, 2)), ("1.0 * ni", lambda E, n=n: E.e(n) + E.e(n - 1))]
        if s[-1] in "chm":
            outs += [("Ie", lambda E, n=n, s=s: E.e(*range(1, n + (s[-1] == "h") - 1)))]
    Case(P, f"space_{s}", s, [coords("u", n)], outs, pre="double const *x = a; (void)x;", weight=.5)
    Case(P, f"index_{s}", s, [operand("du", "x", n), operand("db", "y", n)], [("x", lambda E: E.x), ("y", lambda E: E.y)], weight=.5)

# mixed kinds of coordinates
for s in ("ga3e", "ga1c", "ga1m", "ga2p", "g3f"):
    r = lambda E: E.r["u"]
    q = lambda E: E.q["u"]
    Case(P, f"mixed_{s}", s, [Operand("u", None, None, real=3, intg=3)], [
        ("vector(a[0], c<2>, a[1])", lambda E: vec(E, [r(E)[0], 2, r(E)[1]])),
        ("vector(c<2>, a[0], c<-3>)", lambda E: vec(E, [2, r(E)[0], -3])),
        ("vector(c<4>, c<2>, c<-3>)", lambda E: vec(E, [4, 2, -3])),
        ("vector(c<0>, c<1>, a[2])", lambda E: vec(E, [0, 1, r(E)[2]])),
        ("vector(a[2], c<0>, c<0>)", lambda E: vec(E, [r(E)[2], 0, 0])),
        ("vector(scalar(a[0]), a[1], a[2])", lambda E: vec(E, r(E))),
        ("vector(a[0], scalar(a[1]), c<7>)", lambda E: vec(E, [r(E)[0], r(E)[1], 7])),
        ("vector(scalar(a[0]), scalar(a[1]), scalar(a[2]))", lambda E: vec(E, r(E))),
        ("!{ auto const y = scalar(a[1]); auto const z = scalar(a[0]); vf_put(@, vector(y, z, a[2])); }", lambda E: vec(E, [r(E)[1], r(E)[0], r(E)[2]])),
        ("!{ auto y = scalar(a[1]); auto k = c<5>; vf_put(@, vector(y, k, a[2])); }", lambda E: vec(E, [r(E)[1], 5, r(E)[2]])),
        ("!{ auto y = scalar(a[1]); auto k = c<5>; auto z = scalar(q[0]); vf_put(@, vector(y, z, k)); }", lambda E: vec(E, [r(E)[1], q(E)[0], 5])),
        ("vector(q[0], a[1], q[2])", lambda E: vec(E, [q(E)[0], r(E)[1], q(E)[2]])),
        ("vector(q[0], q[1], q[2])", lambda E: vec(E, q(E))),
        ("vector(a[0], q[1], c<5>)", lambda E: vec(E, [r(E)[0], q(E)[1], 5])),
        ("vector(1, 2, a[0])", lambda E: vec(E, [1, 2, r(E)[0]])),
        ("vector(a[0] + a[1], a[1] - a[2], a[2] * a[0])", lambda E: vec(E, [r(E)[0] + r(E)[1], r(E)[1] - r(E)[2], r(E)[2] * r(E)[0]])),
    ], weight=1)

# scalars and conversions to the native type
Case(P, "scalars", "ga3e", [Operand("u", None, None, real=1, intg=1)], [
    ("scalar(a[0])", lambda E: E.s(E.r["u"][0])), ("scalar(q[0])", lambda E: E.s(E.q["u"][0])),
    ("scalar(scalar(a[0]))", lambda E: E.s(E.r["u"][0])), ("scalar(c<5>)", lambda E: E.s(5)),
    ("(double)(scalar(a[0]))", lambda E: E.s(E.r["u"][0])), ("(double)(c<3>)", lambda E: E.s(3)), ("(double)(c<-3>)", lambda E: E.s(-3)),
    ("(long)(scalar(q[0]))", lambda E: E.s(E.q["u"][0])), ("(double)(scalar(q[0]))", lambda E: E.s(E.q["u"][0])),
    ("!{ auto x = vf_fill<ga::full_multivector_t<double, 3, 0, 0>>(a); vf_put(@, x); vf_put(o, 10, (double)x); }", lambda E: E.s(E.r["u"][0])),
    ("!", lambda E: E.s(E.r["u"][0])),
    ("scaled_scalar_t<double>(make_sequential_storage(a[0]))", lambda E: E.s(E.r["u"][0])),
    ("unit_scalar_t()", lambda E: E.s(1)),
    ("constant<double, 7>()", lambda E: E.s(7)), ("c<-7, double>", lambda E: E.s(-7)), ("_0", lambda E: E.s(0)), ("_1", lambda E: E.s(1)), ("_2", lambda E: E.s(2)),
    ("(double)(sp(vector(a[0], 2.0, 3.0), vector(1.0, 2.0, 3.0)))", lambda E: E.s(E.r["u"][0] + 13)),
    ("(double)(e1 | e1)", lambda E: E.s(1)),
])

# dense types: coefficients in the documented order (ascending bitset within the grade, ascending grade)
for nn, g0, g1 in [(1, 0, 1), (2, 0, 2), (3, 0, 3), (3, 1, 1), (3, 2, 2), (3, 3, 3), (3, 0, 0), (3, 1, 2), (3, 2, 3), (4, 0, 4), (4, 2, 2), (4, 1, 3), (5, 2, 2), (5, 3, 4), (5, 0, 5)]:
    bl = [b for g in range(g0, g1 + 1) for b in sorted(range(1 << nn), key=int) if grade(b) == g]
    m = len(bl)
    args = ", ".join(f"a[{k}]" for k in range(m))
    fun = lambda E, bl=bl: E.mv({b: E.r["u"][k] for k, b in enumerate(bl)})
    outs = [(f"full_multivector_t<double, {nn}, {g0}, {g1}>(make_sequential_storage({args}))", fun),
            (f"!{{ std::array<double, {m}> y{{{{ {args} }}}}; full_multivector_t<double, {nn}, {g0}, {g1}> z(make_sequential_storage({args})); vf_put(@, z); }}", fun)]
    if g0 == g1:
        outs.append((f"full_kvector_t<double, {nn}, {g0}>(make_sequential_storage({args}))", fun))
    if g0 == g1 == 1:
        outs.append((f"full_vector_t<double, {nn}>(make_sequential_storage({args}))", fun))
    if (g0, g1) == (0, nn):
        outs.append((f"full_multivector_t<double, {nn}>(make_sequential_storage({args}))", fun))
    Case(P, f"dense_{nn}_{g0}_{g1}", f"ga{nn}e", [Operand("u", None, None, real=m)], outs, weight=.6)

# blades of documented types
Case(P, "blades", "ga4e", [Operand("u", None, None, real=2, idx=2)], [
    ("scaled_constant_basis_blade_t<double, 1, 3>(make_sequential_storage(a[0]))", lambda E: E.e(1, 3) * E.r["u"][0]),
    ("scaled_constant_basis_blade_t<double, 3, 4, 1>(make_sequential_storage(a[0]))", lambda E: E.e(1, 3, 4) * E.r["u"][0]),
    ("scaled_constant_basis_vector_t<double, 4>(make_sequential_storage(a[1]))", lambda E: E.e(4) * E.r["u"][1]),
    ("scaled_constant_basis_vector_t<double, 1>(make_sequential_storage(a[1]))", lambda E: E.e(1) * E.r["u"][1]),
    ("unit_constant_basis_blade_t<1, 2>()", lambda E: E.e(1, 2)), ("unit_constant_basis_blade_t<2, 3, 4>()", lambda E: E.e(2, 3, 4)), ("unit_constant_basis_vector_t<3>()", lambda E: E.e(3)),
    ("scaled_basis_vector_t<double>(make_sequential_storage(a[0]), make_sequential_storage(bitset_t(1) << (n[0] - 1)))", lambda E: E.e(E.i["u"][0]) * E.r["u"][0]),
    ("unit_basis_vector_t(make_sequential_storage(bitset_t(1) << (n[0] - 1)))", lambda E: E.e(E.i["u"][0])),
    ("scaled_basis_blade_t<double, 2>(make_sequential_storage(a[0]), make_sequential_storage(bitset_t(1) << (n[0] - 1) | bitset_t(1) << (n[1] - 1)))",
     lambda E: E.mv({1 << E.i["u"][0] - 1 | 1 << E.i["u"][1] - 1: E.r["u"][0]})),
    ("scaled_basis_blade_t<double, 1, 2>(make_sequential_storage(a[0]), make_sequential_storage(bitset_t(1) << (n[0] - 1) | bitset_t(1) << (n[1] - 1)))",
     lambda E: E.mv({1 << E.i["u"][0] - 1 | 1 << E.i["u"][1] - 1: E.r["u"][0]})),
    ("unit_basis_blade_t<1, 2>(make_sequential_storage(bitset_t(1) << (n[0] - 1) | bitset_t(1) << (n[1] - 1)))",
     lambda E: E.mv({1 << E.i["u"][0] - 1 | 1 << E.i["u"][1] - 1: 1})),
    ("scaled_pseudoscalar_t<double, 4>(make_sequential_storage(a[0]))", lambda E: E.I * E.r["u"][0]),
    ("unit_pseudoscalar_t<4>()", lambda E: E.I),
    ("!{ using T = full_derived_multivector_t<double, typename std::remove_cv_t<decltype(e1 + (e2 ^ e3))>::expression_type>; vf_put(@, T(make_sequential_storage(a[0], a[1]))); }",
     lambda E: E.e(1) * E.r["u"][0] + E.e(2, 3) * E.r["u"][1]),
    ("!{ using T = full_derived_multivector_t<double, typename std::remove_cv_t<decltype(c<2> * (e2 ^ e3) - e4)>::expression_type>; vf_put(@, T(make_sequential_storage(a[0], a[1]))); }",
     lambda E: E.e(4) * E.r["u"][0] + E.e(2, 3) * E.r["u"][1]),
])
# every index that the library supports
Case(P, "wide_run", "s63", [Operand("u", None, None, idx=1, dom=[range(1, 64)])], [("e(n[0])", lambda E: E.e(E.i["u"][0])), ("pseudoscalar()", lambda E: E.I)])
for lo in range(1, 64, 16):
    Case(P, f"wide_const{lo}", "s63", [Operand("u", None, None, real=1)], [(f"e(c<{k}>)", (lambda k: lambda E: E.e(k))(k)) for k in range(lo, min(lo + 16, 64))]
         + [(f"scaled_constant_basis_vector_t<double, {lo + 7}>(make_sequential_storage(a[0]))", (lambda k: lambda E: E.e(k) * E.r["u"][0])(lo + 7))])
for nn in (12, 33):
    Case(P, f"wide_vec{nn}", f"s{nn}", [coords("u", nn)], [("vector(" + ", ".join(f"a[{k}]" for k in range(nn)) + ")", lambda E: E.u), ("vector(a, a + %d)" % nn, lambda E: E.u), ("pseudoscalar()", lambda E: E.I)])
