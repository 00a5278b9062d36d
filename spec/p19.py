"""P19: copies between multivector types keep every coefficient that has a place, zero the rest, and are refused when something would be lost."""
from spec._lib import *
from gatlver.space import SP
from fractions import Fraction

P = "P19"
DEF = RF.const(Fraction(1.0e-8))
T = Operand("t", "$0", lambda E, r, i, q: E.s(r[0]), real=1)


def typ(n, g0, g1, t="double"):
    return f"ga::full_multivector_t<{t}, {n}, {g0}, {g1}>"


def dst(g0, g1, n):
    """A target with every coefficient of grades g0..g1, holding garbage before the copy."""
    return f"{typ(n, g0, g1)} y; for (auto it = y.values().begin(); it != y.values().end(); ++it) *it = 77.0;"


def keep(m, blades):
    return MV(m.sp, {b: v for b, v in m.d.items() if b in blades})


def gr(n, g0, g1):
    return {b for b in range(1 << n) if g0 <= grade(b) <= g1}


def checked(E, m, blades, tol):
    for b in sorted(m.d, key=lambda b: (grade(b), b)):
        if b not in blades:
            v = m.d[b]
            if not (E.le(v, tol) and E.le(-v, tol)):
                raise SpecOutcome("throw")
    return keep(m, blades)


POS = lambda E: [(E.r["t"][0], {0, 1})]
for s in ("ga2e", "ga3e", "ga1m", "ga1c", "s121"):
    n = SP[s].n
    full = {"full": (0, n), "k0": (0, 0), "k1": (1, 1), "k2": (2, 2), "k12": (1, 2), "k01": (0, 1), "kn": (n, n)}
    for a, (a0, a1) in full.items():
        for b, (b0, b1) in full.items():
            if a1 > n or b1 > n or s != "ga3e" and (len(a) + len(b)) % 2 and a != "full":
                continue
            fits = b0 <= a0 and a1 <= b1
            if fits:
                Case(P, f"copy_{s}_{a}_{b}", s, [Full("x", a0, a1)], [(f"!{dst(b0, b1, n)} ga::trivial_copy(x, y); vf_put(@, y);", lambda E: E.x)], weight=.3)
                Case(P, f"conv_{s}_{a}_{b}", s, [Full("x", a0, a1)], [(f"{typ(n, b0, b1)}(x)", lambda E: E.x), (f"!{{ {dst(b0, b1, n)} y = x; vf_put(@, y); }}", lambda E: E.x)], weight=.3)
            many = len(gr(n, a0, a1) - gr(n, b0, b1))
            if many <= 8:
                bl = gr(n, b0, b1)
                Case(P, f"chk_{s}_{a}_{b}", s, [Full("x", a0, a1), T], [(f"!{dst(b0, b1, n)} ga::checked_trivial_copy(x, y, t); vf_put(@, y);", lambda E, bl=bl: checked(E, E.x, bl, E.r["t"][0]))],
                     requires=POS, weight=.5)
                Case(P, f"def_{s}_{a}_{b}", s, [Full("x", a0, a1)], [(f"!{dst(b0, b1, n)} ga::checked_trivial_copy(x, y); vf_put(@, y);", lambda E, bl=bl: checked(E, E.x, bl, DEF))], weight=.5)
# expressions as sources
for k in ("vec", "cb1", "cbn", "cb21", "ub1", "ub12", "nb21", "csum", "sum", "sc", "ic", "zc", "ps", "nat"):
    for b, (b0, b1) in {"full": (0, 3), "k1": (1, 1), "k2": (2, 2), "k01": (0, 1), "k13": (1, 3)}.items():
        op = operand(k, "x", 3)
        g = {"vec": {1}, "cb1": {1}, "cbn": {1}, "cb21": {2}, "ub1": {1}, "ub12": {2}, "nb21": {2}, "csum": {0, 1}, "sum": {0, 1, 2}, "sc": {0}, "ic": {0}, "zc": set(), "ps": {3}, "nat": {0}}[k]
        bl = gr(3, b0, b1)
        if all(b0 <= z <= b1 for z in g):
            Case(P, f"copy_{k}_{b}", "ga3e", [op], [(f"!{dst(b0, b1, 3)} ga::trivial_copy(x, y); vf_put(@, y);", lambda E: E.x)] +
                 ([] if k == "nat" else [(f"{typ(3, b0, b1)}(x)", lambda E: E.x), (f"!{{ {dst(b0, b1, 3)} y = x; vf_put(@, y); }}", lambda E: E.x)]), weight=.3)
        if k in ("ub1", "ub12", "nb21", "csum", "ps", "ic") and not all(b0 <= z <= b1 for z in g):
            continue        # a compile-time coefficient without a place does not compile
        tt = "1e-3" if k in ("ub1", "ub12", "nb21", "csum", "ps", "ic", "zc") else "t"
        Case(P, f"chk_{k}_{b}", "ga3e", [op, T], [(f"!{dst(b0, b1, 3)} ga::checked_trivial_copy(x, y, {tt}); vf_put(@, y);", lambda E, bl=bl: checked(E, E.x, bl, E.r["t"][0]))], requires=POS, weight=.3)
# run-time blades
for src, dsttxt, z in [("du", "$ * e(n[1])", 1), ("dv", "$ * e(n[1])", 1), ("dv", "$ * (e(n[1]) + e(n[0]))", 0), ("du", "e(n[1])", 1), ("db", "$ * (e(n[2]) ^ e(n[3]))", 1), ("mix", "$ + $ * e1 + $ * e(n[1])", 1), ("sc", "$ + $ * e1 + $ * e(n[0])", 1),
                       ("cb1", "$ + $ * e1 + $ * e(n[0])", 1), ("dv", "$ + $ * e1 + $ * e(n[0])", 1), ("dv", "$ + $ * e(n[0])", 1), ("du", "$ + $ * e(n[0])", 1), ("dg", "$ * (e(n[2]) * e(n[3]))", 1)]:
    if not z:
        continue
    op = operand(src, "x", 3)
    tx = dsttxt.replace("$", "77.0")
    extra = Operand("w", None, None, idx=op.idx, dom=[[2]] * op.idx) if op.idx else None
    i0 = op.idx
    Case(P, f"dyn_{src}_{dsttxt}".replace(" ", ""), "ga3e", [op, Operand("w", None, None, idx=2)],
         [(f"!auto y = {tx.replace('n[1]', f'n[{i0}]').replace('n[2]', f'n[{i0}]').replace('n[3]', f'n[{i0 + 1}]').replace('n[0]', f'n[{i0}]')}; ga::trivial_copy(x, y); vf_put(@, y);", lambda E: E.x),
          ("!ga::checked_trivial_copy(x, y, 1e-3); vf_put(@, y);", lambda E: E.x), ("!ga::checked_trivial_copy(x, y); vf_put(@, y);", lambda E: E.x)], weight=1)
# a run-time blade has no place of its own in a target that only has compile-time ones
for k in ("dv", "mix"):
    def sp(E, k=k):
        v = E.r["x"][-1]
        if not (E.le(v, E.r["t"][0]) and E.le(-v, E.r["t"][0])):
            raise SpecOutcome("throw")
        m = E.s(0)
        if k == "mix":
            m = E.s(E.r["x"][0]) + E.e(1) * E.r["x"][1]
        return m
    Case(P, f"lost_{k}", "ga3e", [operand(k, "x", 3), T], [(f"!{dst(0, 1, 3)} ga::checked_trivial_copy(x, y, t); vf_put(@, y);", sp)], requires=POS)
# same type: plain assignment
for k in ("full", "kv1", "cb1", "dv", "sum", "mix"):
    Case(P, f"same_{k}", "ga3e", [operand(k, "x", 3), operand(k, "y", 3)],
         [("!auto z = y; ga::trivial_copy(x, z); vf_put(@, z);", lambda E: E.x), ("!{ auto z = y; ga::checked_trivial_copy(x, z); vf_put(@, z); }", lambda E: E.x),
          ("!{ auto z = y; ga::checked_trivial_copy(x, z, 0.0); vf_put(@, z); }", lambda E: E.x), ("!{ auto z = y; z = x; vf_put(@, z); }", lambda E: E.x),
          ("!{ auto z = y; auto w = z; z = std::move(w); vf_put(@, z); }", lambda E: E.y), ("!{ auto z(x); vf_put(@, z); }", lambda E: E.x)], weight=.4)
# coefficient types
Case(P, "types", "ga2e", [Full("x", T="long")], [(f"{typ(2, 0, 2)}(x)", lambda E: E.x), (f"!{typ(2, 0, 2)} y; ga::checked_trivial_copy(x, y, 0); vf_put(@, y);", lambda E: E.x)])
# run-time blades with the same compile-time coefficient, and with another one; default construction; coefficient types of copies
for k, t, f in (("du", "e(#0)", lambda E, i: E.e(i[0])), ("dc", "c<3> * e(#0)", lambda E, i: E.e(i[0]) * 3), ("dcb", "c<-2> * (e(#0) ^ e(#1))", lambda E, i: E.e(*i) * -2)):
    n = t.count("#")
    o = lambda nm, t=t, f=f, n=n: Operand(nm, t, lambda E, r, i, q, f=f: f(E, i), idx=n)
    if n == 1:
        Case(P, f"dync_{k}", "ga3e", [o("x"), o("y")], [("!auto z = y; ga::trivial_copy(x, z); vf_put(@, z);", lambda E: E.x), ("!{ auto z = y; z = x; vf_put(@, z); }", lambda E: E.x),
             ("!{ auto z = y; ga::checked_trivial_copy(x, z); vf_put(@, z); }", lambda E: E.x), ("!{ auto z = y; auto w = z; z = std::move(w); vf_put(@, z); }", lambda E: E.y)], weight=.6)
    else:
        Case(P, f"dync_{k}", "ga3e", [o("x")], [("!auto z = x; vf_put(@, z);", lambda E: E.x), ("!{ auto w = x; auto z = std::move(w); vf_put(@, z); }", lambda E: E.x)], weight=.6)
Case(P, "zero_init", "ga3e", [operand("full", "x", 3), operand("dv", "y", 3), operand("sum", "w", 3)],
     [("!{ decltype(x + x) z; ga::trivial_copy(x, z); vf_put(@, z); }", lambda E: E.x), ("!{ std::decay_t<decltype(w)> z; z = w; vf_put(@, z); }", lambda E: E.w),
      ("!{ std::decay_t<decltype(y)> z; z = y; vf_put(@, z); }", lambda E: E.y)], weight=.6)
Case(P, "move_conv", "ga3e", [operand("vec", "x", 3), operand("cb1", "y", 3)],
     [(f"!{{ auto w = x; {typ(3, 0, 3)} z(std::move(w)); vf_put(@, z); }}", lambda E: E.x), (f"!{{ auto w = y; {typ(3, 1, 1)} z(std::move(w)); vf_put(@, z); }}", lambda E: E.y),
      ("!{ ga::full_multivector_t<float, 3> z(x); vf_put(@, z); }", lambda E: E.x)], weight=.6)
wide_cases(P, [("!{ auto y = x; auto z = std::move(y); vf_put(@, z); }", lambda E: E.x)], kinds2=None)
# sums of run-time blades, with stored or compile-time coefficients
for k in ("uu", "ud", "dsum", "mix"):
    y = {"uu": "77.0 * e(2) + 78.0 * e(3)", "ud": "77.0 * e(1) + 78.0 * (e(1) ^ e(2)) + 79.0 * e(c<2>)", "dsum": "77.0 * e(2) + 78.0 * e(3)", "mix": "77.0 * e(2) + 78.0 * e1 + 79.0"}[k].replace("(1)", "((ga::index_t)1)").replace("(2)", "((ga::index_t)2)").replace("(3)", "((ga::index_t)3)")
    Case(P, f"dynsum_{k}", "ga3e", [operand(k, "x", 3)], [(f"!{{ auto y = {y}; ga::trivial_copy(x, y); vf_put(@, y); }}", lambda E: E.x), (f"!{{ auto y = {y}; ga::checked_trivial_copy(x, y); vf_put(@, y); }}", lambda E: E.x),
         (f"!{{ auto y = {y}; y = x; vf_put(@, y); }}", lambda E: E.x), (f"!{{ std::decay_t<decltype({y})> y(x); vf_put(@, y); }}", lambda E: E.x),
         (f"!{{ std::decay_t<decltype({y})> y; y = x; vf_put(@, y); }}", lambda E: E.x)], weight=.8)
    # a target with more terms
    Case(P, f"dynmore_{k}", "ga3e", [operand(k, "x", 3)], [(f"!{{ auto y = {y} + 76.0 * (e1 ^ e2 ^ e3) + 75.0; ga::trivial_copy(x, y); vf_put(@, y); }}", lambda E: E.x), (f"!{{ auto y = {y} + 76.0 * (e1 ^ e2 ^ e3) + 75.0; ga::checked_trivial_copy(x, y, 1e-3); vf_put(@, y); }}", lambda E: E.x)], weight=.8)
# a multivector copied or assigned to itself, and a result assigned to an operand
for k in ("full", "kv1", "kv2", "cb1", "dv", "sum", "mix", "uu", "ud", "sc"):
    Case(P, f"self_{k}", "ga3e", [operand(k, "x", 3), operand("full" if k == "full" else "sc", "y", 3)],
         [("!{ auto z = x; ga::trivial_copy(z, z); vf_put(@, z); }", lambda E: E.x), ("!{ auto z = x; ga::checked_trivial_copy(z, z); vf_put(@, z); }", lambda E: E.x),
          ("!{ auto z = x; auto const &w = z; z = w; vf_put(@, z); }", lambda E: E.x)] +
         ([("!{ auto z = x; z = z * z; vf_put(@, z); }", lambda E: E.x.gp(E.x)), ("!{ auto z = x; z = y * z - z; vf_put(@, z); }", lambda E: E.y.gp(E.x) - E.x),
           ("!{ auto z = x; ga::checked_trivial_copy(gp(y, z), z); vf_put(@, z); }", lambda E: E.y.gp(E.x))] if k == "full" else []), weight=.6)
