"""P23: for_each_component and for_each_basis_vector visit everything exactly once, in the stored order, and stop when told to."""
from spec._lib import *
from gatlver.space import SP

P = "P23"
CT, ST = 0, 1
# the visitor's log: per visit number, the blade (+ 1), the value, the two sources and the initial value of keep_going
LOG = """long k = 0; auto log = [&](ga::bitset_t const b, auto const &y, ga::entry_source_t const bs, ga::entry_source_t const vs, bool &go) {
        vf_emit(o, 1, k, 1.0 + (double)b); vf_emit(o, 2, k, (double)y); vf_emit(o, 3, k, 1.0 + 10.0 * (double)(int)bs + (double)(int)vs); vf_emit(o, 4, k, go ? 1.0 : 0.0); ++k; };
    (void)log;"""


def log_outs(call, seq, ret):
    """seq(E) -> [(bits, value, blade source, value source)]; ret(E) -> returned flag."""
    return [(call, lambda E: E.s(ret(E))), ("!", lambda E: {k: 1 + x[0] for k, x in enumerate(seq(E))}), ("!", lambda E: {k: x[1] for k, x in enumerate(seq(E))}),
            ("!", lambda E: {k: 1 + 10 * x[2] + x[3] for k, x in enumerate(seq(E))}), ("!", lambda E: {k: 1 for k, x in enumerate(seq(E))})]


def comp(name, space, ops, seq, weight=.5, x="x", **kw):
    n = sum(o.idx for o in ops if not hasattr(o, "full"))
    Case(P, name, space, ops, log_outs(f"!bool const r0 = ga::for_each_component({x}, log); vf_put(@, r0 ? 1 : 0);", seq, lambda E: 1), pre=LOG, weight=weight, **kw)
    # stop at the j-th visit
    j = Operand("j", None, None, idx=1, dom=[[1, 2, 3, 5, 8]])
    Case(P, name + "_stop", space, ops + [j],
         log_outs(f"!bool const r0 = ga::for_each_component({x}, [&](ga::bitset_t const b, auto const &y, ga::entry_source_t const bs, ga::entry_source_t const vs, bool &go) {{ log(b, y, bs, vs, go); go = k != n[{n}]; }}); vf_put(@, r0 ? 1 : 0);",
                  lambda E: seq(E)[:E.i["j"][0]], lambda E: int(len(seq(E)) < E.i["j"][0])), pre=LOG, weight=weight, **kw)
    # stop at a blade: the decision is the visitor's
    Case(P, name + "_cond", space, ops,
         log_outs(f"!bool const r0 = ga::for_each_component({x}, [&](ga::bitset_t const b, auto const &y, ga::entry_source_t const bs, ga::entry_source_t const vs, bool &go) {{ log(b, y, bs, vs, go); if (b == 2) go = false; }}); vf_put(@, r0 ? 1 : 0);",
                  lambda E: upto(seq(E)), lambda E: int(all(b != 2 for b, *_ in seq(E)))), pre=LOG, weight=weight, **kw)


def upto(l):
    out = []
    for x in l:
        out.append(x)
        if x[0] == 2:
            break
    return out


def blades(n, g0=0, g1=None):
    return [b for g in range(g0, (n if g1 is None else g1) + 1) for b in range(1 << n) if grade(b) == g]


for s, g0, g1 in [("ga1e", 0, 1), ("ga2e", 0, 2), ("ga3e", 0, 3), ("ga3e", 1, 1), ("ga3e", 2, 2), ("ga3e", 3, 3), ("ga3e", 0, 0), ("ga1c", 0, 3), ("ga3c", 2, 3), ("ga4e", 0, 4), ("ga5e", 0, 5)]:
    n = SP[s].n
    comp(f"full_{s}_{g0}_{g1}", s, [Full("x", g0, g1)], lambda E, n=n, g0=g0, g1=g1: [(b, E.x.get(b), CT, ST) for b in blades(n, g0, g1)])
for s in ("ga3e", "ga1m"):
    R = lambda E: E.r["x"]
    D = lambda E: E.i["x"]
    bit = lambda *k: sum(1 << i - 1 for i in k)
    for k, f in {
        "vec": lambda E: [(1 << j, R(E)[j], CT, ST) for j in range(3)],
        "cb1": lambda E: [(1, R(E)[0], CT, ST)],
        "ub12": lambda E: [(3, 1, CT, CT)],
        "nb21": lambda E: [(3, 2, CT, CT)],
        "ps": lambda E: [(7, 1, CT, CT)],
        "ic": lambda E: [(0, 3, CT, CT)],
        "zc": lambda E: [(0, 0, CT, CT)],
        "sc": lambda E: [(0, R(E)[0], CT, ST)],
        "csum": lambda E: [(0, 2, CT, CT), (1, 3, CT, CT), (4, -1, CT, CT)],
        "du": lambda E: [(bit(D(E)[0]), 1, ST, CT)],
        "dv": lambda E: [(bit(D(E)[0]), R(E)[0], ST, ST)],
    }.items():
        comp(f"{k}_{s}", s, [operand(k, "x", 3)], f)
# mixed: constants, stored values and run-time blades together
comp("mixed", "ga3e", [Operand("x", "$0 * (e(c<1>) ^ e(c<3>)) + c<5> * e(c<2>) - e(c<3>) + $1", None, real=2)],
     lambda E: [(0, E.r["x"][1], CT, ST), (2, 5, CT, CT), (4, -1, CT, CT), (5, E.r["x"][0], CT, ST)])
comp("fraction", "ga3e", [Operand("x", "1.0 * ((c<3> / c<2>) * e(c<1>))", None)], lambda E: [(1, MV.lift(3) / MV.lift(2), CT, ST)])
# run-time blades next to constant ones: the order is the stored one, each stored value and blade exactly once
SUM = """long k = 0, q0 = 0; auto log = [&](ga::bitset_t const b, auto const &y, ga::entry_source_t const bs, ga::entry_source_t const vs, bool &go) {
        vf_emit(o, 1, (long)b, (double)y); if (vs == ga::STORED_RUNTIME_DEFINED_ENTRY) { vf_emit(o, 2, k, (double)y); ++k; } if (bs == ga::STORED_RUNTIME_DEFINED_ENTRY) { vf_emit(o, 3, q0, (double)b); ++q0; } };"""
for k in ("mix", "db", "dg", "dsum", "dv", "uu", "ud"):
    for s in ("ga3e", "ga2p"):
        Case(P, f"stored_{k}_{s}", s, [operand(k, "x", 3)],
             [("!bool const r0 = ga::for_each_component(x, log); vf_put(@, r0 ? 1 : 0);", lambda E: 1), ("!", lambda E: E.x),
              ("!{ long k1 = 0; for (auto it = x.values().cbegin(); it != x.values().cend(); ++it, ++k1) vf_emit(o, 2, k1, -(double)*it); }", lambda E: E.s(0)),
              ("!{ long k1 = 0; for (auto it = x.bitsets().cbegin(); it != x.bitsets().cend(); ++it, ++k1) vf_emit(o, 3, k1, -(double)*it); }", lambda E: E.s(0)),
              ("(long)std::distance(x.values().cbegin(), x.values().cend())", lambda E, k=k: {"mix": 3, "dsum": 2, "uu": 0, "ud": 2}.get(k, 1)), ("(long)std::distance(x.bitsets().cbegin(), x.bitsets().cend())", lambda E, k=k: {"dsum": 2, "uu": 2, "ud": 2}.get(k, 1))], pre=SUM)

# basis vectors of a blade
VLOG = "long k = 0; auto vlog = [&](ga::index_t const j, bool &go) { vf_emit(o, 1, k, (double)j); vf_emit(o, 2, k, go ? 1.0 : 0.0); ++k; }; (void)vlog;"


def vecs(name, space, ops, x, seq, weight=.5, pre=""):
    n = sum(o.idx for o in ops if not hasattr(o, "full"))
    out = lambda c, f, r: [(c, lambda E: E.s(r(E))), ("!", lambda E: {k: j for k, j in enumerate(f(E))}), ("!", lambda E: {k: 1 for k, j in enumerate(f(E))})]
    Case(P, "bv_" + name, space, ops, out(f"!bool const r0 = ga::for_each_basis_vector({x}, vlog); vf_put(@, r0 ? 1 : 0);", seq, lambda E: 1), pre=pre + VLOG, weight=weight)
    j = Operand("j", None, None, idx=1, dom=[[1, 2, 3]])
    Case(P, "bv_" + name + "_stop", space, ops + [j], out(f"!bool const r0 = ga::for_each_basis_vector({x}, [&](ga::index_t const j, bool &go) {{ vlog(j, go); go = k != n[{n}]; }}); vf_put(@, r0 ? 1 : 0);",
         lambda E: seq(E)[:E.i["j"][0]], lambda E: int(len(seq(E)) < E.i["j"][0])), pre=pre + VLOG, weight=weight)


WIDE = [1, 2, 31, 32, 33, 48, 63, 64]
two = lambda d: Operand("y", None, None, idx=2, dom=[d, d])
for s in ("ga3e", "ga2c"):
    d = list(range(1, SP[s].n + 1))
    vecs(f"bits_{s}", s, [Operand("y", None, None, idx=3, dom=[d, d, d])], "ga::bitset_t(1) << (n[0] - 1) | ga::bitset_t(1) << (n[1] - 1) | ga::bitset_t(1) << (n[2] - 1)", lambda E: sorted(set(E.i["y"])))
vecs("wide", "ga3e", [two(WIDE)], "ga::bitset_t(1) << (n[0] - 1) | ga::bitset_t(1) << (n[1] - 1)", lambda E: sorted(set(E.i["y"])), weight=1)
vecs("none", "ga3e", [], "ga::bitset_t(0)", lambda E: [])
vecs("all", "ga3e", [], "~ga::bitset_t(0)", lambda E: list(range(1, 65)))
vecs("sc", "ga3e", [operand("sc", "x", 3)], "x", lambda E: [])
vecs("cb1", "ga3e", [operand("cb1", "x", 3)], "x", lambda E: [1])
vecs("cb31", "ga3e", [operand("cb21", "x", 3)], "x", lambda E: [1, 3])
vecs("nb21", "ga3e", [operand("nb21", "x", 3)], "x", lambda E: [1, 2])
vecs("ps", "ga5e", [], "I", lambda E: [1, 2, 3, 4, 5])
vecs("dv", "ga5e", [operand("dv", "x", 5)], "x", lambda E: E.i["x"])
vecs("du", "ga2c", [operand("du", "x", 4)], "x", lambda E: E.i["x"])
vecs("s63", "s63", [Operand("x", "$0 * (e(#0) ^ e(#1))", None, real=1, idx=2, dom=[[1, 31, 32, 33], [2, 34, 62, 63]])], "x", lambda E: sorted(E.i["x"]), weight=1)
vecs("s63c", "s63", [Operand("x", "$0 * (e(c<63>) ^ e(c<1>) ^ e(c<32>) ^ e(c<33>))", None, real=1)], "x", lambda E: [1, 32, 33, 63])
