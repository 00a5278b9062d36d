"""Symbolic executor / verification-condition generator for the parsed LLVM IR.

Doubles are exact reals (sym.RF); integers are concrete, 64-bit z3 bit-vectors, or (integral coefficients)
mathematical integers (RF).  All paths are enumerated by re-execution under decision prefixes; a branch is pruned only
when its negation is implied by the path condition (syntactically, or by a z3 'unsat').  Memory is typed cells in
disjoint objects; every access is checked against the bounds of its object and for initialisation.
"""
import math
import sys
from fractions import Fraction
from . import sym as S
from .sym import RF, Poly
from .ir import Unsupported

sys.setrecursionlimit(20000)

MATH1 = {"sqrt": "sqrt", "cos": "cos", "sin": "sin", "tan": "tan", "cosh": "cosh", "sinh": "sinh", "tanh": "tanh",
         "exp": "exp", "log": "log", "cbrt": "cbrt", "fabs": "abs", "acos": "acos", "asin": "asin", "atan": "atan"}


class Outcome(Exception):
    def __init__(self, kind, info=""):
        self.kind, self.info = kind, info


class Fault(Exception):
    """Undefined behaviour found on a feasible path."""

    def __init__(self, kind, info=""):
        super().__init__(f"{kind}: {info}")
        self.kind, self.info = kind, info


class Infeasible(Exception):
    pass


def literal(x):
    """The real number that a floating-point literal stands for: the compiler folds 1.0/3 to the nearest double of 1/3."""
    f = Fraction(x)
    if f.denominator > 1 << 24 and abs(f) < 1000:
        g = f.limit_denominator(20000)
        if abs(float(g) - x) <= 2 * math.ulp(x):
            return g
        g = f.limit_denominator(1000)       # a few folded operations later: 1 - 7.0/6
        if abs(float(g) - x) <= 64 * math.ulp(x):
            return g
    return f


class Undef:
    __slots__ = ()

    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Bits:
    """Raw bits of a double travelling through an integer register."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Obj:
    __slots__ = ("name", "size", "cells", "ro", "alive", "zero")

    def __init__(self, name, size, ro=False):
        self.name, self.size, self.ro = name, size, ro
        self.cells = {}
        self.alive = True
        self.zero = False


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off):
        self.o, self.off = o, off

    def __repr__(self):
        return f"&{self.o.name if self.o else 'null'}+{self.off}"


NULL = Ptr(None, 0)


def is_bv(x):
    return hasattr(x, "as_ast")


class Ctx:
    """One path: decisions taken, constraints collected."""

    def __init__(self, prefix, assume=(), z3_ms=700):
        self.prefix = prefix
        self.taken = []
        self.alts = []
        self.signs = {}     # canonical poly -> allowed signs, subset of {-1,0,1}
        self.pc = []        # [(poly, signs)] in order
        self.bvpc = []
        self.nonzero = set()
        self.z3_ms = z3_ms
        self.solver_calls = 0
        self.solver_time = 0.0
        self.unknown = 0
        self.denoms = set()
        self.sqrt_args = []
        for p, signs in assume:
            self.add(p, signs)

    # ---- real constraints
    def add(self, rf, signs):
        n = self.sign_poly(rf)
        c, p = n.canon()
        if p.is_const() or not p.d:
            v = p.const_value() * c if p.d else 0
            s = (v > 0) - (v < 0)
            if s not in signs:
                raise Infeasible()
            return
        if c < 0:
            signs = {-s for s in signs}
        cur = self.signs.get(p, {-1, 0, 1})
        new = cur & set(signs)
        if not new:
            raise Infeasible()
        self.signs[p] = new
        self.pc.append((p, frozenset(new)))

    @staticmethod
    def sign_poly(rf):
        n = rf.n
        for p, k in rf.den.items():
            if k & 1:
                n = n * p
        return n

    def allowed(self, p):
        """Possible signs of canonical poly p by syntactic reasoning."""
        s = {-1, 0, 1}
        ms = p.manifest_sign()
        s &= {{"-": -1, "0": 0, "+": 1}[c] for c in ms}
        if p in self.signs:
            s = s & self.signs[p]
        if len(s) == 3 and p.d:
            # monomial content: sign from factors
            g = p.mono_gcd()
            if g:
                m = 0
                fs = []
                for v, k in g.items():
                    m |= k << (S.BITS * v)
                    pv = Poly.v(v)
                    at = S.F.atoms.get(v)
                    if at is not None and at[0] == "cbrt" and pv not in self.signs:
                        c3, p3 = at[1][0].n.canon()
                        fs.append(({z * (1 if c3 > 0 else -1) for z in self.allowed(p3)} if not p3.is_const() else {1 if c3 > 0 else -1}, k))
                        continue
                    fs.append((self.signs.get(pv, {0, 1} if S.nonneg_atom(v) else {-1, 0, 1}), k))
                q = Poly({mm - m: c for mm, c in p.d.items()})
                cq, qp = q.canon()
                if qp.is_const():
                    qs = {1 if cq * qp.const_value() > 0 else -1}
                elif qp is not p and qp != p:
                    qs = self.allowed(qp)
                    if cq < 0:
                        qs = {-x for x in qs}
                else:
                    qs = {-1, 0, 1}
                acc = qs
                for sg, k in fs:
                    sg = {x ** k for x in sg}
                    acc = {x * y for x in acc for y in sg}
                s &= acc
            # sum of squares plus something known: term-wise
        return s or {0}

    def decide(self, rf, signs, want_fork=True):
        """Is sign(rf) in signs on this path?  Forks when undetermined."""
        n = self.sign_poly(rf)
        signs = set(signs)
        if n.is_const():
            v = n.const_value()
            return ((v > 0) - (v < 0)) in signs
        c, p = n.canon()
        if c < 0:
            signs = {-s for s in signs}
        cur = self.allowed(p)
        if cur <= signs:
            return True
        if not (cur & signs):
            return False
        i = len(self.taken)
        if i < len(self.prefix):
            r = self.prefix[i]
        else:
            # new decision: prune by the solver where it can
            tf = self.feasible(p, cur & signs)
            if tf is False:
                r, alt = False, None
            else:
                ff = self.feasible(p, cur - signs)
                r, alt = True, (False if ff is not False else None)
            if alt is not None:
                self.alts.append(self.taken + [alt])
        self.taken.append(r)
        new = (cur & signs) if r else (cur - signs)
        self.signs[p] = new
        self.pc.append((p, frozenset(new)))
        return r

    def choose(self, n):
        """Non-deterministic choice (used for case splits in the specification)."""
        i = len(self.taken)
        if i < len(self.prefix):
            r = self.prefix[i]
        else:
            r = 0
            for k in range(n - 1, 0, -1):
                self.alts.append(self.taken + [k])
        self.taken.append(r)
        return r

    def decide_bv(self, cond):
        import z3
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.taken)
        if i < len(self.prefix):
            r = self.prefix[i]
        else:
            a = self.bv_sat(cond)
            b = self.bv_sat(z3.Not(cond))
            if a is False and b is False:
                raise Infeasible()
            if a is False:
                r = False
            else:
                r = True
                if b is not False:
                    self.alts.append(self.taken + [False])
        self.taken.append(r)
        self.bvpc.append(cond if r else z3.Not(cond))
        return r

    def bv_sat(self, cond):
        import z3, time
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*self.bvpc)
        s.add(cond)
        t = time.time()
        r = s.check()
        self.solver_calls += 1
        self.solver_time += time.time() - t
        if r == z3.unsat:
            return False
        if r == z3.sat:
            return True
        self.unknown += 1
        return None

    def feasible(self, p, signs):
        """False when the path condition plus sign(p) in signs is unsatisfiable over the reals."""
        from . import smt
        import time
        t = time.time()
        r = smt.sat(self.pc + [(p, frozenset(signs))], self.z3_ms)
        self.solver_calls += 1
        self.solver_time += time.time() - t
        if r is None:
            self.unknown += 1
        return r


ICMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b}


class Exec:
    single = True       # the contract's program uses single precision itself

    def __init__(self, mod, ctx, max_steps=400000):
        self.m, self.ctx = mod, ctx
        self.steps = 0
        self.max_steps = max_steps
        self.globs = {}
        self.nalloc = 0
        self.texts = []

    # ------------------------------------------------------------ memory
    def glob(self, name):
        if name in self.m.aliases:
            name = self.m.aliases[name]
        o = self.globs.get(name)
        if o is None:
            if name in self.m.globals:
                ty, c, const = self.m.global_init(name)
                o = Obj(name, ty.size)
                self.globs[name] = o
                if c is not None:
                    self.init(o, 0, ty, c)
                o.ro = const
            else:
                o = Obj(name, 0)
                self.globs[name] = o
        return Ptr(o, 0)

    def init(self, o, off, ty, c):
        if c[0] == "zero":
            self.zero(o, off, ty)
        elif c[0] == "str":
            s = c[1]
            s = s[s.index('"') + 1:-1]
            i = j = 0
            while i < len(s):
                if s[i] == "\\":
                    b = int(s[i + 1:i + 3], 16)
                    i += 3
                else:
                    b = ord(s[i])
                    i += 1
                o.cells[off + j] = (1, b)
                j += 1
        elif c[0] == "agg":
            for k, (ety, e) in enumerate(c[1]):
                eo = ty.offs[k] if ty.k == "struct" else k * ty.e.size
                self.init(o, off + eo, ety, e)
        elif c[0] == "undef":
            pass
        else:
            o.cells[off] = (ty.size, self.const(ty, c))

    def zero(self, o, off, ty):
        if ty.k == "struct":
            for e, x in zip(ty.e, ty.offs):
                self.zero(o, off + x, e)
        elif ty.k in ("arr", "vec"):
            for k in range(ty.n):
                self.zero(o, off + k * ty.e.size, ty.e)
        elif ty.k == "f":
            o.cells[off] = (ty.size, S.ZERO)
        elif ty.k == "ptr":
            o.cells[off] = (8, NULL)
        elif ty.k == "i":
            o.cells[off] = (ty.size, 0)

    def check(self, p, size, write):
        if not isinstance(p, Ptr):
            if p is UNDEF:
                raise Fault("undefined pointer", "")
            raise Unsupported(f"pointer value {p!r}")
        if p.o is None:
            raise Fault("null pointer access", "")
        if not isinstance(p.off, int):
            raise Unsupported("symbolic address")
        if not p.o.alive:
            raise Fault("access after lifetime", p.o.name)
        if p.off < 0 or p.off + size > p.o.size:
            if p.o.size == 0 and p.o.name.startswith("@"):
                raise Unsupported("external global " + p.o.name)
            raise Fault("out-of-bounds " + ("write" if write else "read"), f"{p.o.name} offset {p.off} size {size} of {p.o.size}")
        if write and p.o.ro:
            raise Fault("write to constant", p.o.name)

    def store(self, p, ty, v):
        if ty.k in ("struct", "arr", "vec"):
            for k in range(len(ty.e) if ty.k == "struct" else ty.n):
                et = ty.e[k] if ty.k == "struct" else ty.e
                eo = ty.offs[k] if ty.k == "struct" else k * ty.e.size
                self.store(Ptr(p.o, p.off + eo), et, v[k] if v is not UNDEF else UNDEF)
            return
        size = ty.size
        self.check(p, size, True)
        self.clear(p.o, p.off, size)
        if isinstance(v, Bits):
            v = v.v
            if isinstance(v, tuple):
                for o2, s2, x in v:
                    p.o.cells[p.off + o2] = (s2, x)
                return
            p.o.cells[p.off] = (size, FV(v) if not isinstance(v, FV) else v)
            return
        if ty.k == "f" and isinstance(v, RF):
            v = FV(v)
        p.o.cells[p.off] = (size, v)

    def clear(self, o, off, size):
        c = o.cells
        ex = c.get(off)
        if ex is not None and ex[0] == size:
            return
        for x in range(off - 15, off + size):
            e = c.get(x)
            if e is not None and x + e[0] > off:
                if x < off or x + e[0] > off + size:
                    # split concrete integers into bytes, otherwise unsupported
                    if isinstance(e[1], int):
                        del c[x]
                        for b in range(e[0]):
                            c[x + b] = (1, (e[1] >> (8 * b)) & 255)
                        for b in range(off, off + size):
                            c.pop(b, None)
                        continue
                    raise Unsupported("partial overwrite")
                del c[x]

    def load(self, p, ty):
        if ty.k == "struct":
            return [self.load(Ptr(p.o, p.off + o), e) for e, o in zip(ty.e, ty.offs)]
        if ty.k in ("arr", "vec"):
            return [self.load(Ptr(p.o, p.off + k * ty.e.size), ty.e) for k in range(ty.n)]
        self.check(p, ty.size, False)
        e = p.o.cells.get(p.off)
        if e is None:
            # maybe a byte-wise or wider view
            parts = [p.o.cells.get(p.off + b) for b in range(ty.size)]
            got = any(x is not None for x in parts)
            if not got:
                for x in range(p.off - 15, p.off):
                    w = p.o.cells.get(x)
                    if w is not None and x + w[0] > p.off:
                        if isinstance(w[1], int) and ty.k == "i":
                            return (w[1] >> (8 * (p.off - x))) & ((1 << ty.n) - 1)
                        raise Unsupported("partial read")
                return UNDEF
            return UNDEF if ty.k != "i" else self.assemble(p, ty)
        if e[0] == ty.size:
            v = e[1]
            if isinstance(v, FV):
                return v.v if ty.k == "f" else Bits(v.v)
            if ty.k == "f" and isinstance(v, int):
                if v == 0:
                    return S.ZERO
                import struct
                return S.RF.const(literal(struct.unpack("<d", v.to_bytes(8, "little"))[0]))
            if ty.k == "f" and v is S.ZERO:
                return v
            if ty.k == "ptr" and isinstance(v, int):
                if v == 0:
                    return NULL
                raise Unsupported("integer as pointer")
            if ty.k == "i" and isinstance(v, int):
                return v & ((1 << ty.n) - 1)
            return v
        if e[0] > ty.size and isinstance(e[1], int) and ty.k == "i":
            return e[1] & ((1 << ty.n) - 1)
        return self.assemble(p, ty)

    def assemble(self, p, ty):
        r, b = 0, 0
        items = []
        while b < ty.size:
            e = p.o.cells.get(p.off + b)
            if e is None or b + e[0] > ty.size:
                return UNDEF
            items.append((b, e[0], e[1]))
            b += e[0]
        if all(isinstance(x, int) for _, _, x in items):
            for o, s, x in items:
                r |= x << (8 * o)
            return r
        if ty.k == "i":
            return Bits(tuple(items))
        raise Unsupported("mixed read")

    def memcpy(self, d, s, n, move=False):
        if n == 0:
            return
        self.check(d, n, True)
        self.check(s, n, False)
        items = []
        for off in range(s.off, s.off + n):
            e = s.o.cells.get(off)
            if e is not None:
                if off + e[0] > s.off + n:
                    if isinstance(e[1], int):
                        for b in range(s.off + n - off):
                            items.append((off - s.off + b, (1, (e[1] >> (8 * b)) & 255)))
                        continue
                    raise Unsupported("partial memcpy")
                items.append((off - s.off, e))
        for x in range(s.off - 15, s.off):
            e = s.o.cells.get(x)
            if e is not None and x + e[0] > s.off:
                raise Unsupported("partial memcpy")
        self.clear(d.o, d.off, n)
        for b in range(d.off, d.off + n):
            d.o.cells.pop(b, None)
        for o, e in items:
            d.o.cells[d.off + o] = e

    def alloc(self, name, size):
        self.nalloc += 1
        return Ptr(Obj(f"{name}", size), 0)

    # ------------------------------------------------------------ values
    def const(self, ty, c):
        k = c[0]
        if k == "int":
            return c[1]
        if k == "flt":
            if c[1] != c[1] or c[1] in (float("inf"), float("-inf")):
                return NonFinite(c[1])
            return S.RF.const(literal(c[1]))
        if k == "null":
            return NULL
        if k == "undef":
            if ty.k in ("struct", "arr", "vec"):
                return [self.const(ty.e[i] if ty.k == "struct" else ty.e, c) for i in range(len(ty.e) if ty.k == "struct" else ty.n)]
            return UNDEF
        if k == "zero":
            if ty.k == "struct":
                return [self.const(e, c) for e in ty.e]
            if ty.k in ("arr", "vec"):
                return [self.const(ty.e, c) for _ in range(ty.n)]
            return S.ZERO if ty.k == "f" else NULL if ty.k == "ptr" else 0
        if k == "glob":
            if c[1] in self.m.fns:
                return Ptr(Obj(c[1], 0), 0)
            return self.glob(c[1])
        if k == "gep":
            base = self.const(None, c[2])
            return self.gep(c[1], base, [(t, self.const(t, v[1])) for t, v in c[3]])
        if k == "agg":
            return [self.const(t, e) for t, e in c[1]]
        raise Unsupported("constant " + k)

    def gep(self, bt, p, idx):
        if p is UNDEF:
            return UNDEF
        if not isinstance(p, Ptr):
            raise Unsupported("gep base")
        off = p.off
        ty = bt
        for k, (ity, v) in enumerate(idx):
            if not isinstance(v, int):
                if v is UNDEF:
                    return UNDEF
                raise Unsupported("symbolic index")
            if ity.k == "i":
                v &= (1 << ity.n) - 1
                if v >> (ity.n - 1):
                    v -= 1 << ity.n
            if k == 0:
                off += v * ty.size
            elif ty.k == "struct":
                off += ty.offs[v]
                ty = ty.e[v]
            else:
                ty = ty.e
                off += v * ty.size
        return Ptr(p.o, off)

    # ------------------------------------------------------------ execution
    def call(self, name, args):
        if name in self.m.aliases:
            name = self.m.aliases[name]
        f = self.m.fns[name]
        self.m.body(f)
        env = {}
        for (ty, pn), a in zip(f.params, args):
            pass
        n = 0
        for (ty, pn), a in zip(f.params, args):
            env[pn if pn else f"%{n}"] = a
            n += 1
        prev = None
        blk = f.order[0]
        frame = []
        ctx = self.ctx

        def val(ty, v):
            if v[0] == "l":
                return env[v[1]]
            return self.const(ty, v[1])

        from .ir import PTR, INT
        while True:
            ins = f.blocks[blk]
            # phis in parallel
            i = 0
            new = {}
            while i < len(ins) and ins[i][0] == "phi":
                _, res, ty, inc = ins[i]
                new[res] = val(ty, inc[prev])
                i += 1
            env.update(new)
            nxt = None
            while i < len(ins):
                x = ins[i]
                i += 1
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Unsupported("step limit")
                op = x[0]
                if op == "load":
                    env[x[1]] = self.load(val(PTR, x[3]), x[2])
                elif op == "store":
                    self.store(val(PTR, x[4]), x[2], val(x[2], x[3]))
                elif op == "getelementptr":
                    env[x[1]] = self.gep(x[2], val(PTR, x[3]), [(t, val(t, v)) for t, v in x[4]])
                elif op in ("fadd", "fsub", "fmul", "fdiv"):
                    a, b = val(x[2], x[3]), val(x[2], x[4])
                    if x[2].k == "vec":
                        env[x[1]] = [self.fop(op, p, q) for p, q in zip(a, b)]
                    else:
                        env[x[1]] = self.fop(op, a, b)
                elif op == "fneg":
                    a = val(x[2], x[3])
                    if x[2].k == "vec":
                        env[x[1]] = [self.fop("fsub", S.ZERO, q) for q in a]
                    else:
                        env[x[1]] = self.fop("fsub", S.ZERO, a)
                elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
                    a, b = val(x[2], x[3]), val(x[2], x[4])
                    if x[2].k == "vec":
                        env[x[1]] = [self.iop(op, x[2].e.n, p, q) for p, q in zip(a, b)]
                    else:
                        env[x[1]] = self.iop(op, x[2].n, a, b)
                elif op == "icmp":
                    if x[3].k == "vec":
                        env[x[1]] = [self.icmp(x[2], x[3].e, p, q) for p, q in zip(val(x[3], x[4]), val(x[3], x[5]))]
                    else:
                        env[x[1]] = self.icmp(x[2], x[3], val(x[3], x[4]), val(x[3], x[5]))
                elif op == "fcmp":
                    env[x[1]] = self.fcmp(x[2], val(x[3], x[4]), val(x[3], x[5]))
                elif op == "select":
                    c = val(INT(1), x[3])
                    c = self.truth(c)
                    env[x[1]] = val(x[2], x[4]) if c else val(x[2], x[5])
                elif op == "br":
                    nxt = x[2]
                    break
                elif op == "brc":
                    nxt = x[3] if self.truth(val(INT(1), x[2])) else x[4]
                    break
                elif op == "call":
                    env[x[1]] = self.docall(x[2], x[3], [(t, val(t, v)) for t, v in x[4]])
                    if x[5] is not None:
                        nxt = x[5]
                        break
                elif op == "ret":
                    for o in frame:
                        o.alive = False
                    return None if x[2] is None else val(x[2], x[3])
                elif op == "alloca":
                    cnt = 1 if x[3] is None else self.const(None, x[3][1]) if x[3][0] == "c" else env[x[3][1]]
                    p = self.alloc("alloca" + x[1], x[2].size * cnt)
                    frame.append(p.o)
                    env[x[1]] = p
                elif op in ("zext", "sext", "trunc", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "ptrtoint", "inttoptr"):
                    env[x[1]] = self.cast(op, x[2], val(x[2], x[3]), x[4])
                elif op == "switch":
                    v = val(x[2], x[3])
                    if is_bv(v) or isinstance(v, RF):
                        nxt = None
                        for cv, lab in x[5]:
                            if self.truth(self.icmp("eq", x[2], v, self.const(x[2], cv[1]))):
                                nxt = lab
                                break
                        if nxt is None:
                            nxt = x[4]
                    else:
                        if v is UNDEF:
                            raise Fault("branch on uninitialised value", "")
                        nxt = x[4]
                        for cv, lab in x[5]:
                            if self.const(x[2], cv[1]) == v:
                                nxt = lab
                                break
                    break
                elif op == "extractvalue":
                    v = val(x[2], x[3])
                    for k in x[4]:
                        v = v[k]
                    env[x[1]] = v
                elif op == "insertvalue":
                    v = val(x[2], x[3])

                    def ins_(v, idx, w):
                        v = list(v)
                        v[idx[0]] = w if len(idx) == 1 else ins_(v[idx[0]], idx[1:], w)
                        return v
                    env[x[1]] = ins_(v, x[6], val(x[4], x[5]))
                elif op == "freeze":
                    env[x[1]] = val(x[2], x[3])
                elif op == "extractelement":
                    v, k = val(x[2], x[3]), val(INT(64), x[4])
                    env[x[1]] = v[k]
                elif op == "insertelement":
                    v = list(val(x[2], x[3]))
                    v[val(INT(64), x[5])] = val(x[2].e, x[4])
                    env[x[1]] = v
                elif op == "shufflevector":
                    a, b = val(x[2], x[3]), val(x[2], x[4])
                    mask = x[5][1]
                    ab = list(a) + list(b)
                    if mask[0] == "zero":
                        raise Unsupported("shuffle zero mask")
                    env[x[1]] = [ab[e[1]] if e[0] == "int" else UNDEF for _, e in mask[1]]
                elif op == "unreachable":
                    raise Fault("unreachable executed", f.name)
                else:
                    raise Unsupported(f"instruction {op} {x[2] if len(x) > 2 else ''}")
            prev, blk = blk, nxt

    def truth(self, c):
        if c is UNDEF:
            raise Fault("branch on uninitialised value", "")
        if isinstance(c, bool):
            return c
        if isinstance(c, int):
            return bool(c & 1)
        if isinstance(c, Cond):
            r = self.ctx.decide(c.rf, c.signs)
            return r
        if is_bv(c):
            import z3
            if z3.is_bool(c):
                return self.ctx.decide_bv(c)
            return self.ctx.decide_bv(c == 1)
        raise Unsupported(f"condition {c!r}")

    def fop(self, op, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, NonFinite) or isinstance(b, NonFinite):
            raise Unsupported("non-finite arithmetic")
        if op == "fadd":
            return a + b
        if op == "fsub":
            return a - b
        if op == "fmul":
            return a * b
        if b.is_zero():
            raise Outcome("div0", "floating-point division by a value that is identically zero")
        if not b.is_const():
            self.ctx.denoms.add(b)
        return a / b

    def iop(self, op, n, a, b):
        if a is UNDEF or b is UNDEF:
            if op == "and" and (a == 0 if a is not UNDEF else b == 0):
                return 0
            return UNDEF
        if isinstance(a, Cond) or isinstance(b, Cond):
            a = int(self.truth(a)) if isinstance(a, Cond) else a
            b = int(self.truth(b)) if isinstance(b, Cond) else b
        M = (1 << n) - 1
        if isinstance(a, int) and isinstance(b, int):
            return int_op(op, n, a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "sub" and a.o is b.o:
            return (a.off - b.off) & M
        if isinstance(a, RF) or isinstance(b, RF):
            def lift(v):
                if isinstance(v, RF):
                    return v
                if isinstance(v, int):
                    return S.RF.const(v - (1 << n) if v >> (n - 1) else v)
                raise Unsupported("mixed integer values")
            if op == "add":
                return lift(a) + lift(b)
            if op == "sub":
                return lift(a) - lift(b)
            if op == "mul":
                return lift(a) * lift(b)
            if op == "shl" and isinstance(b, int):
                return lift(a) * (1 << b)
            if op == "xor" and isinstance(b, int) and b == M:
                return -lift(a) - 1
            raise Unsupported(f"integer coefficient operation {op}")
        if is_bv(a) or is_bv(b):
            import z3
            if z3.is_bool(a) if is_bv(a) else False:
                a = z3.If(a, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            if z3.is_bool(b) if is_bv(b) else False:
                b = z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            a = z3.BitVecVal(a, n) if isinstance(a, int) else a
            b = z3.BitVecVal(b, n) if isinstance(b, int) else b
            r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b,
                 "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b,
                 "udiv": lambda: z3.UDiv(a, b), "urem": lambda: z3.URem(a, b), "sdiv": lambda: a / b,
                 "srem": lambda: z3.SRem(a, b)}[op]()
            if op in ("shl", "lshr", "ashr"):
                if not self.ctx.decide_bv(z3.ULT(b, n)):
                    raise Fault("shift amount out of range", op)
            if op in ("udiv", "sdiv", "urem", "srem"):
                if self.ctx.decide_bv(b == 0):
                    raise Fault("division by zero", op)
            r = z3.simplify(r)
            if z3.is_bv_value(r):
                return r.as_long()
            return r
        raise Unsupported(f"integer operation {op} on {a!r},{b!r}")

    def icmp(self, pred, ty, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Cond):
            a = int(self.truth(a))
        if isinstance(b, Cond):
            b = int(self.truth(b))
        if isinstance(a, int) and isinstance(b, int):
            n = ty.n if ty.k == "i" else 64
            if pred[0] == "s":
                if a >> (n - 1):
                    a -= 1 << n
                if b >> (n - 1):
                    b -= 1 << n
            p = pred if pred in ("eq", "ne") else pred[1:]
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p])
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, int):
                a = NULL
            if isinstance(b, int):
                b = NULL
            same = a.o is b.o
            if pred == "eq":
                return int(same and a.off == b.off)
            if pred == "ne":
                return int(not (same and a.off == b.off))
            if same:
                p = pred[1:]
                return int({"lt": a.off < b.off, "le": a.off <= b.off, "gt": a.off > b.off, "ge": a.off >= b.off}[p])
            raise Unsupported("pointer comparison")
        if isinstance(a, RF) or isinstance(b, RF):
            n = ty.n

            def lift(v):
                return v if isinstance(v, RF) else S.RF.const(v - (1 << n) if v >> (n - 1) else v)
            if pred[0] == "u":
                raise Unsupported("unsigned comparison of integral coefficients")
            p = pred if pred in ("eq", "ne") else pred[1:]
            return Cond(lift(a) - lift(b), SG[p])
        if is_bv(a) or is_bv(b):
            import z3
            n = ty.n
            a = z3.BitVecVal(a, n) if isinstance(a, int) else a
            b = z3.BitVecVal(b, n) if isinstance(b, int) else b
            if z3.is_bool(a):
                a = z3.If(a, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            if z3.is_bool(b):
                b = z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            r = {"eq": lambda: a == b, "ne": lambda: a != b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b),
                 "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b), "slt": lambda: a < b, "sle": lambda: a <= b,
                 "sgt": lambda: a > b, "sge": lambda: a >= b}[pred]()
            r = z3.simplify(r)
            if z3.is_true(r):
                return 1
            if z3.is_false(r):
                return 0
            return r
        raise Unsupported(f"icmp on {a!r},{b!r}")

    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, NonFinite) or isinstance(b, NonFinite):
            if isinstance(b, NonFinite) and not isinstance(a, NonFinite):
                x, y = 0.0, b.x
            elif isinstance(a, NonFinite) and not isinstance(b, NonFinite):
                x, y = a.x, 0.0
            else:
                x, y = a.x, b.x
            un = x != x or y != y
            p = pred[1:]
            if pred in ("ord", "uno"):
                return int(un == (pred == "uno"))
            if un:
                return int(pred[0] == "u")
            return int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p])
        if pred in ("ord", "true"):
            return 1
        if pred in ("uno", "false"):
            return 0
        return Cond(a - b, SG[pred[1:]])

    def cast(self, op, t1, v, t2):
        if v is UNDEF:
            return UNDEF
        if op in ("zext", "sext", "trunc"):
            if isinstance(v, (Cond,)):
                if t1.n == 1:
                    v = int(self.truth(v))
                else:
                    raise Unsupported("cast of condition")
            if isinstance(v, list):
                return [self.cast(op, t1.e, q, t2.e) for q in v]
            if isinstance(v, int):
                if op == "sext" and v >> (t1.n - 1) & 1:
                    v |= ((1 << t2.n) - 1) & ~((1 << t1.n) - 1)
                return v & ((1 << t2.n) - 1)
            if isinstance(v, RF):
                return v
            if is_bv(v):
                import z3
                if z3.is_bool(v):
                    return int(self.truth(v)) if op != "sext" else (-int(self.truth(v))) & ((1 << t2.n) - 1)
                if op == "trunc":
                    r = z3.Extract(t2.n - 1, 0, v)
                elif op == "zext":
                    r = z3.ZeroExt(t2.n - t1.n, v)
                else:
                    r = z3.SignExt(t2.n - t1.n, v)
                r = z3.simplify(r)
                return r.as_long() if z3.is_bv_value(r) else r
            raise Unsupported(f"{op} of {v!r}")
        if op in ("sitofp", "uitofp"):
            if isinstance(v, Cond):
                v = int(self.truth(v))
            if isinstance(v, int):
                if op == "sitofp" and v >> (t1.n - 1):
                    v -= 1 << t1.n
                return S.RF.const(v)
            if isinstance(v, RF):
                return v
            raise Unsupported(f"{op} of bit-vector")
        if op == "fptrunc" and isinstance(v, RF) and not v.is_const() and not self.single:
            return S.s_fun("fround", v)     # a loss of precision, unless the contract itself asks for float
        if op in ("fpext", "fptrunc"):
            return v
        if op in ("fptosi", "fptoui"):
            if isinstance(v, RF) and v.is_const():
                c = v.const_value()
                return int(c) & ((1 << t2.n) - 1)
            if isinstance(v, RF) and op == "fptosi":
                return S.s_fun("trunc", v)
            raise Unsupported(op)
        if op == "bitcast":
            if isinstance(v, Bits) and t2.k == "f":
                return v.v
            if t1.k == "f" and t2.k == "i":
                return Bits(v)
            if t1.k == t2.k:
                return v
            if t1.k == "i" and t2.k == "f" and isinstance(v, int):
                import struct
                return S.RF.const(literal(struct.unpack("<d", v.to_bytes(8, "little"))[0]))
            raise Unsupported("bitcast")
        if op == "ptrtoint":
            return v
        if op == "inttoptr":
            if isinstance(v, Ptr):
                return v
        raise Unsupported(op)

    # ------------------------------------------------------------ calls
    def docall(self, ty, callee, args):
        vals = [v for _, v in args]
        if not callee.startswith("@"):
            raise Unsupported("indirect call")
        name = callee
        if name in self.m.aliases:
            name = self.m.aliases[name]
        n = name[1:].strip('"')
        if n.startswith("llvm."):
            return self.intrinsic(n, ty, args)
        f = self.m.fns.get(name)
        if f is not None and not f.decl:
            return self.call(name, vals)
        return self.external(n, ty, args, vals)

    def intrinsic(self, n, ty, args):
        v = [x for _, x in args]
        if n.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias", "llvm.assume", "llvm.prefetch", "llvm.invariant")):
            if n.startswith("llvm.assume"):
                c = v[0]
                if isinstance(c, int) and not (c & 1):
                    raise Fault("violated llvm.assume", "")
            return None
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            if not isinstance(v[2], int):
                raise Unsupported("symbolic memcpy")
            return self.memcpy(v[0], v[1], v[2])
        if n.startswith("llvm.memset"):
            if not ((isinstance(v[1], int) or v[1] is UNDEF) and isinstance(v[2], int)):
                raise Unsupported("symbolic memset")
            p = v[0]
            if v[2] == 0:
                return None
            self.check(p, v[2], True)
            self.clear(p.o, p.off, v[2])
            if v[1] is UNDEF:
                for b in range(p.off, p.off + v[2]):
                    p.o.cells.pop(b, None)
                return None
            for b in range(p.off, p.off + v[2]):
                p.o.cells.pop(b, None)
            if p.off % 8 == 0 and v[1] == 0:
                k = 0
                while k + 8 <= v[2]:
                    p.o.cells[p.off + k] = (8, 0)
                    k += 8
                while k < v[2]:
                    p.o.cells[p.off + k] = (1, 0)
                    k += 1
            else:
                for k in range(v[2]):
                    p.o.cells[p.off + k] = (1, v[1])
            return None
        if n.startswith("llvm.fabs"):
            return self.math("abs", v)
        if n.startswith("llvm.sqrt"):
            return self.math("sqrt", v)
        for k in ("cos", "sin", "exp", "log", "pow"):
            if n == f"llvm.{k}.f64":
                return self.math(k, v)
        if n.startswith("llvm.fmuladd") or n.startswith("llvm.fma."):
            return v[0] * v[1] + v[2]
        if n.startswith(("llvm.ctpop", "llvm.cttz", "llvm.ctlz")):
            w = ty.n
            x = v[0]
            if isinstance(x, int):
                if "ctpop" in n:
                    return bin(x).count("1")
                if x == 0:
                    if isinstance(v[1], int) and v[1] & 1:
                        return UNDEF
                    return w
                if "cttz" in n:
                    return (x & -x).bit_length() - 1
                return w - x.bit_length()
            if is_bv(x):
                import z3
                if "ctpop" in n:
                    acc = z3.BitVecVal(0, w)
                    for k in range(w):
                        acc = acc + z3.ZeroExt(w - 1, z3.Extract(k, k, x))
                    return acc
                r = z3.BitVecVal(w, w)
                rng = range(w - 1, -1, -1) if "cttz" in n else range(w)
                for k in rng:
                    r = z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(k if "cttz" in n else w - 1 - k, w), r)
                return r
            if x is UNDEF:
                return UNDEF
            raise Unsupported(n)
        if n.startswith(("llvm.umin", "llvm.umax", "llvm.smin", "llvm.smax")):
            pred = n[5] + ("lt" if "min" in n else "gt")
            c = self.icmp(pred, ty, v[0], v[1])
            return v[0] if self.truth(c) else v[1]
        if n.startswith("llvm.abs"):
            x = v[0]
            if isinstance(x, int):
                w = ty.n
                return (-x) & ((1 << w) - 1) if x >> (w - 1) else x
            if isinstance(x, RF):
                return S.s_abs(x)
            if is_bv(x):
                import z3
                return z3.If(x < 0, -x, x)
        if n.startswith(("llvm.bswap", "llvm.bitreverse")) and isinstance(v[0], int):
            w = ty.n
            if "bitreverse" in n:
                return int(bin(v[0])[2:].zfill(w)[::-1], 2)
            return int.from_bytes(v[0].to_bytes(w // 8, "little"), "big")
        if n.startswith(("llvm.fshl", "llvm.fshr")) and all(isinstance(q, int) for q in v):
            w = ty.n
            s = v[2] % w
            cat = (v[0] << w) | v[1]
            return (cat >> (w - s) if "fshl" in n else cat >> s) & ((1 << w) - 1)
        if n.startswith(("llvm.minnum", "llvm.maxnum")):
            c = Cond(v[0] - v[1], SG["lt" if "min" in n else "gt"])
            return v[0] if self.truth(c) else v[1]
        if n in ("llvm.trap",):
            raise Outcome("abort", "trap")
        if n.startswith("llvm.usub.sat") and all(isinstance(q, int) for q in v):
            return max(0, v[0] - v[1])
        raise Unsupported("intrinsic " + n)

    def math(self, kind, v):
        if any(x is UNDEF for x in v):
            return UNDEF
        if any(isinstance(x, NonFinite) for x in v):
            raise Unsupported("non-finite argument")
        if kind in ("sqrt", "log"):
            r = v[0]
            if r.is_const() and r.const_value() < 0:
                raise Outcome("nan", f"{kind} of a negative number")
            if not r.is_const():
                self.ctx.sqrt_args.append((kind, r))
        if kind == "pow" and not (v[1].is_const() and Fraction(v[1].const_value()).denominator == 1) and not (not v[1].den and all(w in S.F.ints for w in v[1].n.vars()) and all(Fraction(z).denominator == 1 for z in v[1].n.d.values())):
            r = v[0]
            if r.is_const() and r.const_value() < 0:
                raise Outcome("nan", "fractional power of a negative number")
            if not r.is_const():
                self.ctx.sqrt_args.append((kind, r))
        return S.s_fun(kind, *v)

    def external(self, n, ty, args, v):
        if n.startswith("vfm_"):
            n = n[4:]
        base = n[:-1] if n.endswith("f") and n[:-1] in MATH1 else n
        if base in MATH1 or base == "pow":
            return self.math(MATH1.get(base, base), v)
        if n == "vf_poison":
            return UNDEF
        if n in ("memcpy", "memmove"):
            self.memcpy(v[0], v[1], v[2])
            return v[0]
        if n == "memset":
            self.intrinsic("llvm.memset", ty, args)
            return v[0]
        if n == "__assert_fail":
            raise Outcome("assert", self.cstr(v[0]))
        if n in ("abort", "exit", "_ZSt9terminatev", "__clang_call_terminate"):
            raise Outcome("abort", n)
        if n in ("_Znwm", "_Znam", "malloc"):
            if not isinstance(v[0], int):
                raise Unsupported("symbolic allocation")
            return self.alloc("heap", v[0])
        if n in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "free"):
            if v[0].o is not None:
                v[0].o.alive = False
            return None
        if n == "__cxa_allocate_exception":
            return self.alloc("exception", v[0])
        if n == "__cxa_throw":
            raise Outcome("throw", v[1].o.name.lstrip("@"))
        if n.startswith("_ZSt") and "__throw_" in n:
            raise Outcome("throw", n)
        if n in ("_ZNSt13runtime_errorC1EPKc", "_ZNSt11logic_errorC1EPKc", "_ZNSt9exceptionD2Ev", "_ZNSt13runtime_errorC2EPKc",
                 "_ZNSt11logic_errorC2EPKc", "_ZNSt12domain_errorC1EPKc"):
            return None
        if n == "vf_stream":
            return Ptr(Stream("stream", 0), 0)
        if n == "vf_text":
            self.texts.append((v[2], v[0].o.pieces))
            return None
        if n.startswith("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"):
            # assumed contract of std::string: constructed from a C string or a string, destroyed
            k = n[len("_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"):]
            if k[:2] in ("D1", "D2"):
                return None
            if k[:3] in ("pLE", "aSE") or k.startswith(("6append", "6assign", "9push_back", "5clear")):
                # appended to or assigned: += and = of a C string, a character or a string
                o = self.string(v[0])
                if k == "5clearEv":
                    s = ""
                elif k in ("pLEPKc", "aSEPKc", "6appendEPKc", "6assignEPKc"):
                    s = self.cstr(v[1])
                elif k in ("pLEc", "aSEc", "9push_backEc"):
                    if not isinstance(v[1], int):
                        raise Unsupported("symbolic character")
                    s = chr(v[1] & 255)
                elif k in ("6appendEmc", "6assignEmc"):
                    if not isinstance(v[1], int) or not isinstance(v[2], int):
                        raise Unsupported("symbolic character")
                    s = chr(v[2] & 255) * v[1]
                elif k in ("pLERKS4_", "aSERKS4_", "aSEOS4_", "6appendERKS4_", "6assignERKS4_", "6assignEOS4_"):
                    s = self.string(v[1])
                else:
                    raise Unsupported("external function " + n)
                v[0].o.cells[v[0].off] = (32, StdString(s if k[:3] == "aSE" or k.startswith(("6assign", "5clear")) else o + s))
                return v[0]
            if k in ("C1Ev", "C2Ev"):
                s = ""
            elif k in ("C1IS3_vEEPKcRKS3_", "C2IS3_vEEPKcRKS3_", "C1IS3_EEPKcRKS3_", "C2IS3_EEPKcRKS3_", "C1EPKcRKS3_", "C2EPKcRKS3_"):
                s = self.cstr(v[1])
            elif k in ("C1ERKS4_", "C2ERKS4_", "C1EOS4_", "C2EOS4_"):
                s = self.string(v[1])
            else:
                raise Unsupported("external function " + n)
            self.check(v[0], 32, True)
            self.clear(v[0].o, v[0].off, 32)
            v[0].o.cells[v[0].off] = (32, StdString(s))
            return None
        if n.startswith("_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"):
            k = n[len("_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"):]
            if k in ("4sizeEv", "6lengthEv"):
                return len(self.string(v[0]))
            if k == "5emptyEv":
                return int(self.string(v[0]) == "")
            raise Unsupported("external function " + n)
        if n.startswith("_ZStplIcSt11char_traitsIcESaIcEENSt7__cxx1112basic_stringIT_T0_T1_EE"):
            # concatenation: the result is written to v[0]
            k = n[len("_ZStplIcSt11char_traitsIcESaIcEENSt7__cxx1112basic_stringIT_T0_T1_EE"):]
            get = {"PKS5_RKS8_": "cs", "PKS5_OS8_": "cs", "RKS8_PKS5_": "sc", "OS8_PKS5_": "sc", "RKS8_SA_": "ss", "OS8_S9_": "ss", "RKS8_OS8_": "ss",
                   "OS8_RKS8_": "ss", "RKS8_S5_": "sk", "OS8_S5_": "sk", "S5_RKS8_": "ks", "S5_OS8_": "ks", "OS8_SA_": "ss"}.get(k)
            if get is None:
                raise Unsupported("external function " + n)
            s = ""
            for q, x in zip(get, v[1:]):
                if q == "k":
                    if not isinstance(x, int):
                        raise Unsupported("symbolic character")
                    s += chr(x & 255)
                else:
                    s += self.cstr(x) if q == "c" else self.string(x)
            self.check(v[0], 32, True)
            self.clear(v[0].o, v[0].off, 32)
            v[0].o.cells[v[0].off] = (32, StdString(s))
            return None
        if n in ("_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_atexit"):
            return 0
        if v and isinstance(v[0], Ptr) and isinstance(v[0].o, Stream) and n.startswith("_Z"):
            # assumed contract of std::ostream: an insertion appends its operand
            if n.startswith(("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc",)):
                x = self.cstr(v[1])
            elif n.startswith("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c"):
                x = chr(v[1])
            elif n.startswith("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostream"):
                x = self.string(v[1])
            elif n in ("_ZNSolsEd", "_ZNSolsEf", "_ZNSolsEe"):
                x = v[1]
                if x is UNDEF:
                    raise Fault("uninitialised number written", "")
            elif n in ("_ZNSolsEi", "_ZNSolsEl", "_ZNSolsEm", "_ZNSolsEj", "_ZNSolsEx", "_ZNSolsEy", "_ZNSolsEb", "_ZNSolsEs"):
                x = v[1]
                if x is UNDEF:
                    raise Fault("uninitialised number written", "")
                if isinstance(x, int):
                    w = {"b": 1, "s": 16, "i": 32, "j": 32}.get(n[-1], 64)
                    x &= (1 << w) - 1
                    if n[-1] in "ilxs" and x >> (w - 1):
                        x -= 1 << w
                    x = RF.const(x)
                elif not isinstance(x, RF):
                    raise Unsupported("symbolic integer written")
            else:
                raise Unsupported("external function " + n)
            v[0].o.pieces.append(x)
            return v[0]
        if n.startswith(("_ZSt4endlI", "_ZStlsISt11char_traitsIcEERSt13basic_ostream", "_ZNSolsE")):
            return v[0]     # diagnostics
        raise Unsupported("external function " + n)

    def string(self, p):
        e = p.o.cells.get(p.off) if p.o is not None else None
        if e is None or not isinstance(e[1], StdString):
            raise Fault("not a constructed string", p.o.name if p.o is not None else "null")
        self.check(p, 32, False)
        return e[1].s

    def cstr(self, p):
        try:
            s = ""
            for k in range(p.off, p.o.size):
                c = p.o.cells[k][1]
                if c == 0:
                    break
                s += chr(c)
            return s
        except Exception:
            return "?"


class Stream(Obj):
    """An output stream: what was inserted, in order."""

    def __init__(self, name, size):
        Obj.__init__(self, name, size)
        self.pieces = []


class StdString:
    def __init__(self, s):
        self.s = s


class FV:
    """A double stored in memory."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class NonFinite:
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x


class Cond:
    """A real comparison kept symbolic until something depends on it."""
    __slots__ = ("rf", "signs")

    def __init__(self, rf, signs):
        self.rf, self.signs = rf, signs


SG = {"eq": {0}, "ne": {-1, 1}, "lt": {-1}, "le": {-1, 0}, "gt": {1}, "ge": {0, 1}}


def int_op(op, n, a, b):
    M = (1 << n) - 1
    if op == "add":
        return (a + b) & M
    if op == "sub":
        return (a - b) & M
    if op == "mul":
        return (a * b) & M
    if op == "and":
        return a & b
    if op == "or":
        return a | b
    if op == "xor":
        return a ^ b
    if op in ("shl", "lshr", "ashr"):
        if b >= n:
            raise Fault("shift amount out of range", f"{op} i{n} by {b}")
        if op == "shl":
            return (a << b) & M
        if op == "lshr":
            return a >> b
        s = a - (1 << n) if a >> (n - 1) else a
        return (s >> b) & M
    if b == 0:
        raise Fault("integer division by zero", op)
    sa = a - (1 << n) if a >> (n - 1) else a
    sb = b - (1 << n) if b >> (n - 1) else b
    if op == "udiv":
        return a // b
    if op == "urem":
        return a % b
    q = abs(sa) // abs(sb)
    if (sa < 0) != (sb < 0):
        q = -q
    if op == "sdiv":
        return q & M
    return (sa - q * sb) & M
