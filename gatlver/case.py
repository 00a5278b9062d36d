"""Contracts: a case is a requires/ensures specification on one instantiation of GATL's public functions."""
import re
from . import sym as S
from .sym import RF
from .oracle import MV
from .space import SP

ALL = []


class Operand:
    """C++ text over $k (real inputs), #k (runtime indices), ~k (integral inputs) and its mathematical value."""

    def __init__(self, name, cxx, mv, real=0, idx=0, intg=0, dom=None, decl="auto const"):
        self.name, self.cxx, self.mv, self.real, self.idx, self.intg, self.dom = name, cxx, mv, real, idx, intg, dom
        self.decl = decl
        self.eps = None      # value in floating-point runs of inputs that the contract requires to be 0 (tolerances)


def Full(name, g0=0, g1=None, T="double", n=None):
    """Multivector with every coefficient of grades g0..g1 a free input."""
    o = Operand(name, None, None)
    o.full = (g0, g1, T, n)
    return o


class Case:
    textual = False      # outputs are texts: the value that the text denotes is the result
    names = None         # names of the basis vectors in texts
    internal = False     # a contract of a function that is not part of the public interface
    def __init__(self, prop, name, space, ops, outs, pre="", requires=None, tier="quick", dom=None, expect=None, budget=None,
                 text="", numeric_only=False, weight=1.0, tol=1e-6, glob=""):
        self.prop, self.name, self.space, self.pre = prop, name, SP[space], pre
        self.ops = list(ops)
        self.outs = [(o[0], o[1]) for o in outs]
        self.requires, self.tier, self.dom, self.expect = requires, tier, dom, expect
        self.text, self.numeric_only, self.weight, self.tol, self.glob = text, numeric_only, weight, tol, glob
        for o in self.ops:
            assert o.name not in ("v", "r", "i", "q", "e", "s", "I", "N", "sp", "idx", "mv", "ctx", "case", "le", "lt", "pos", "neg", "zero", "a", "n", "o"), o.name
        self.lay()
        ALL.append(self)

    def lay(self):
        ra = ia = qa = 0
        n = self.space.n
        lines = []
        self.inputs = []       # per operand: (name, kind info)
        self.idxdom = []
        self.eps = {}
        self.reals = []        # (slot, name) used
        self.ints = []
        for o in self.ops:
            if hasattr(o, "full"):
                g0, g1, T, nn = o.full
                nn = nn or n
                g1 = nn if g1 is None else g1
                isint = T in ("int", "long", "std::int64_t", "ga::default_integral_t")
                base = qa if isint else ra
                slots = {b: base + b for b in range(1 << nn) if g0 <= bin(b).count("1") <= g1}
                for b, s in slots.items():
                    (self.ints if isint else self.reals).append((s, f"{o.name}_{b}"))
                arr = "q" if isint else "a"
                lines.append(f"{o.decl} {o.name} = vf_fill<ga::full_multivector_t<{T}, {nn}, {g0}, {g1}>>({arr} + {base});")
                self.inputs.append((o, "full", isint, slots))
                if isint:
                    qa += 1 << nn
                else:
                    ra += 1 << nn
            else:
                r = list(range(ra, ra + o.real))
                i = list(range(ia, ia + o.idx))
                q = list(range(qa, qa + o.intg))
                ra += o.real
                ia += o.idx
                qa += o.intg
                if o.eps is not None:
                    self.eps.update({s: o.eps for s in r})
                for k, s in enumerate(r):
                    self.reals.append((s, f"{o.name}{k}"))
                for k, s in enumerate(q):
                    self.ints.append((s, f"{o.name}q{k}"))
                for k in range(o.idx):
                    d = o.dom[k] if o.dom else range(1, n + 1)
                    self.idxdom.append(list(d))
                if o.cxx is not None:
                    t = re.sub(r"\$(\d+)", lambda m: f"a[{r[int(m.group(1))]}]", o.cxx)
                    t = re.sub(r"#(\d+)", lambda m: f"n[{i[int(m.group(1))]}]", t)
                    t = re.sub(r"~(\d+)", lambda m: f"q[{q[int(m.group(1))]}]", t)
                    lines.append(f"{o.decl} {o.name} = {t};")
                self.inputs.append((o, "expr", r, i, q))
        self.nreal, self.nidx, self.nint = ra, ia, qa
        if self.pre:
            lines.append(self.pre)
        for k, (cx, _) in enumerate(self.outs):
            if cx.startswith("!"):
                lines.append(cx[1:].replace("@", f"o, {k}"))
            else:
                lines.append(f"vf_put(o, {k}, {cx});")
        self.body = "\n    ".join(lines)

    def source(self, sym):
        return (f"{self.glob}\nextern \"C\" void {sym}(double const *a, long const *n, long const *q, vf_out *o) {{\n    using namespace "
                f"{getattr(self.space, 'ns', self.space.name)};\n    {self.body}\n}}\n")

    def header(self):
        s = ""
        if self.space.header:
            s += f"#include <{self.space.header}>\n"
        s += self.space.pre
        s += '#include "vf.hpp"\n'
        if self.textual:
            s += '#include "vftext.hpp"\n'
        return s


class Env:
    """What a specification sees: the mathematical operands and the decision oracle of the current path."""

    def __init__(self, case, ctx, reals, idx, ints):
        self.case, self.ctx = case, ctx
        self.sp = case.space.o
        self.N = case.space.n
        self.idx = idx
        self.v = {}
        self.r = {}
        self.i = {}
        self.q = {}
        for x in case.inputs:
            o = x[0]
            if x[1] == "full":
                arr = ints if x[2] else reals
                self.v[o.name] = MV(self.sp, {b: arr[s] for b, s in x[3].items()})
            else:
                r = [reals[s] for s in x[2]]
                i = [idx[s] for s in x[3]]
                q = [ints[s] for s in x[4]]
                self.r[o.name], self.i[o.name], self.q[o.name] = r, i, q
                self.v[o.name] = o.mv(self, r, i, q) if o.mv else None

    def __getattr__(self, k):
        try:
            return self.__dict__["v"][k]
        except KeyError:
            raise AttributeError(k)

    def e(self, *ks):
        """Outer product of basis vectors e_k."""
        m = MV(self.sp, {0: S.ONE})
        for k in ks:
            m = m.op(MV(self.sp, {1 << (k - 1): S.ONE}))
        return m

    def mv(self, d):
        return MV(self.sp, {b: MV.lift(v) for b, v in d.items()})

    def s(self, x):
        return MV(self.sp, {0: MV.lift(x)})

    @property
    def I(self):
        return MV(self.sp, {self.sp.I: S.ONE})

    # decisions on the current path
    def zero(self, x):
        return self.ctx.decide(MV.lift(x), {0})

    def pos(self, x):
        return self.ctx.decide(MV.lift(x), {1})

    def neg(self, x):
        return self.ctx.decide(MV.lift(x), {-1})

    def le(self, x, y):
        return self.ctx.decide(MV.lift(x) - MV.lift(y), {-1, 0})

    def lt(self, x, y):
        return self.ctx.decide(MV.lift(x) - MV.lift(y), {-1})


class SpecOutcome(Exception):
    """The specification says that the call does not return (kind 'throw' or 'assert')."""

    def __init__(self, kind, info=""):
        self.kind, self.info = kind, info
