"""Basis blades whose set of basis vectors is unknown: bit vectors of Boolean polynomials.

Every bit of a symbolic bitset is a polynomial over GF(2) in the input bits (its algebraic normal form), a number of set bits is an
integer polynomial in the input bits.  Paths collect rewriting rules, parities and counts.  `ones` is used by its contract (the number
of set bits), which spec/p20.py verifies separately on its own body."""
import time
from fractions import Fraction
from . import sym as S
from .sym import RF
from .exec import Ctx, Exec, Obj, Ptr, Outcome, Fault, Infeasible, UNDEF, FV, Cond
from .ir import Unsupported
from .case import Case, SpecOutcome
from .oracle import MV

ZERO, ONE = frozenset(), frozenset((0,))


def mul(p, q):
    if not p or not q:
        return ZERO
    if p == ONE:
        return q
    if q == ONE:
        return p
    r = set()
    for a in p:
        for b in q:
            r ^= {a | b}
    return frozenset(r)


def var(k):
    return frozenset((1 << k,))


def vars_of(m):
    while m:
        v = m & -m
        yield v
        m ^= v


class BV:
    """n bits, least significant first."""
    __slots__ = ("n", "b")

    def __init__(self, n, b):
        self.n, self.b = n, tuple(b)

    @staticmethod
    def const(n, x):
        return BV(n, [ONE if x >> k & 1 else ZERO for k in range(n)])

    def norm(self):
        """The integer when every bit is constant."""
        x = 0
        for k, p in enumerate(self.b):
            if p == ONE:
                x |= 1 << k
            elif p:
                return self
        return x

    def __and__(self, o):
        o = lift(o, self.n)
        return BV(self.n, [mul(p, q) for p, q in zip(self.b, o.b)])

    def __xor__(self, o):
        o = lift(o, self.n)
        return BV(self.n, [p ^ q for p, q in zip(self.b, o.b)])

    def __or__(self, o):
        o = lift(o, self.n)
        return BV(self.n, [p ^ q ^ mul(p, q) for p, q in zip(self.b, o.b)])

    def shr(self, k):
        return BV(self.n, self.b[k:] + (ZERO,) * min(k, self.n))

    def shl(self, k):
        return BV(self.n, (ZERO,) * min(k, self.n) + self.b[:max(0, self.n - k)])


def lift(x, n):
    return x if isinstance(x, BV) else BV.const(n, x)


def int_of_anf(p):
    """The 0/1-valued integer polynomial of a Boolean polynomial."""
    r = {}
    for m in p:
        # r xor m = r + m - 2 r m
        t = dict(r)
        t[m] = t.get(m, 0) + 1
        for k, c in r.items():
            t[k | m] = t.get(k | m, 0) - 2 * c
        r = {k: c for k, c in t.items() if c}
        if len(r) > 64:
            raise Unsupported("bit with a large Boolean polynomial")
    return r


class Cnt:
    """An integer polynomial over the input bits (multilinear)."""
    __slots__ = ("n", "d", "lo", "hi")

    def __init__(self, n, d, lo=None, hi=None):
        self.n, self.d = n, d
        if lo is None:
            lo, hi = coarse(d)
        self.lo, self.hi = lo, hi      # sound, not tight

    @staticmethod
    def of(x, n):
        if isinstance(x, Cnt):
            return x
        if isinstance(x, BV):
            r = {}
            for k, p in enumerate(x.b):
                if p:
                    for m, c in int_of_anf(p).items():
                        r[m] = r.get(m, 0) + (c << k)
            return Cnt(n, {m: c for m, c in r.items() if c}, 0, sum(1 << k for k, p in enumerate(x.b) if p))
        if x >> (n - 1) & 1:
            x -= 1 << n
        return Cnt(n, {0: x} if x else {})

    def lin(self, o, s):
        r = dict(self.d)
        for m, c in o.d.items():
            x = r.get(m, 0) + s * c
            if x:
                r[m] = x
            else:
                r.pop(m, None)
        return Cnt(self.n, r, self.lo + (o.lo if s > 0 else -o.hi), self.hi + (o.hi if s > 0 else -o.lo))

    def scale(self, k):
        return Cnt(self.n, {m: c * k for m, c in self.d.items()} if k else {}, min(self.lo * k, self.hi * k), max(self.lo * k, self.hi * k))

    def parity(self):
        return frozenset(m for m, c in self.d.items() if c & 1)


def bit2(c):
    """The second binary digit of a sum of 0/1 monomials (Lucas: the parity of the number of pairs)."""
    if any(x != 1 for x in c.d.values()):
        return None
    ms = list(c.d)
    r = set()
    for i, a in enumerate(ms):
        for b in ms[:i]:
            r ^= {a | b}
    return frozenset(r)


def periodic(h):
    """(1 << count & mask) != 0 as a Boolean polynomial when the mask has period 2 or 4 over the values of the count."""
    hi = len(h.c.d)
    if any(x != 1 for x in h.c.d.values()) or hi < 5 or hi >= h.n:
        return None
    v = [h.mask >> k & 1 for k in range(hi + 1)]
    if any(v[k] != v[k - 4] for k in range(4, hi + 1)):
        return None
    p1 = h.c.parity()
    p2 = bit2(h.c)
    r = ONE if v[0] else ZERO
    if v[0] != v[1]:
        r = r ^ p1
    if v[0] != v[2]:
        r = r ^ p2
    if v[0] ^ v[1] ^ v[2] ^ v[3]:
        r = r ^ mul(p1, p2)
    return r


def coarse(d):
    c0 = d.get(0, 0)
    return (c0 + sum(c for m, c in d.items() if c < 0 and m), c0 + sum(c for m, c in d.items() if c > 0 and m))


def fields(x, mask):
    """x & mask when the runs of the mask cut the sum without carries."""
    if any(c < 0 for c in x.d.values()) or sum(x.d.values()) >= 1 << x.n:
        return None
    runs = []
    k = 0
    while k < x.n:
        j = k
        while j < x.n and (mask >> j & 1) == (mask >> k & 1):
            j += 1
        runs.append((k, j, mask >> k & 1))
        k = j
    out = {}
    for lo, hi, on in runs:
        part = {m: (c >> lo) & ((1 << (hi - lo)) - 1) for m, c in x.d.items()}
        if sum(part.values()) >= 1 << (hi - lo):
            return None
        if on:
            for m, c in part.items():
                if c:
                    out[m] = out.get(m, 0) + (c << lo)
    return Cnt(x.n, out)


def ripple(x, k):
    """x + k for a constant k, as bits."""
    c = ZERO
    out = []
    for i, p in enumerate(x.b):
        q = p ^ c
        if k >> i & 1:
            out.append(q ^ ONE)
            c = p ^ c ^ mul(p, c)
        else:
            out.append(q)
            c = mul(p, c)
        if len(c) > 64:
            return None
    return BV(x.n, out)


def popcount(x, n):
    r = {}
    for p in x.b:
        if p:
            for m, c in int_of_anf(p).items():
                r[m] = r.get(m, 0) + c
    return Cnt(n, {m: c for m, c in r.items() if c}, 0, sum(1 for p in x.b if p))


class Hot:
    """1 << count"""
    __slots__ = ("n", "c", "mask")

    def __init__(self, n, c, mask):
        self.n, self.c, self.mask = n, c, mask


class BCond:
    __slots__ = ("kind", "x", "neg")

    def __init__(self, kind, x, neg=False):
        self.kind, self.x, self.neg = kind, x, neg


class BCtx(Ctx):
    def __init__(self, prefix):
        super().__init__(prefix)
        self.rules = {}       # leading monomial -> polynomial (GF(2))
        self.rows = []        # (pivot, polynomial = 0)
        self.irows = []       # (pivot, {monomial: coefficient} = 0)
        self.facts = []       # lists of polynomials of which at least one is 1
        self.comp = {}        # variable -> tuple of the variables of its component
        self.forks = 0
        self.apart = []       # integer polynomials that are not 0
        self.asked = []       # polynomials that a path was split on

    # ---- rewriting
    def reduce(self, p):
        R = self.rules
        if not R or not p:
            return p
        r = set()
        work = list(p)
        while work:
            m = work.pop()
            hit = None
            vs = list(vars_of(m))
            for v in vs:
                if v in R:
                    hit = v
                    break
            if hit is None and len(vs) > 1:
                for i in range(len(vs)):
                    for j in range(i):
                        q = vs[i] | vs[j]
                        if q in R:
                            hit = q
                            break
                    if hit:
                        break
            if hit is None:
                r ^= {m}
            else:
                rest = m & ~hit
                work += [rest | t for t in R[hit]]
        return frozenset(r)

    def full(self, p):
        p = self.reduce(p)
        for v, q in self.rows:
            if v in p:
                p = p ^ q
        return p

    def add_zero(self, p, batch=False):
        """The path condition p = 0."""
        p = self.full(p)
        if not p:
            return
        if p == ONE:
            raise Infeasible()
        vs = 0
        for m in p:
            vs |= m
        xs = list(vars_of(vs))
        if len(xs) <= 2:
            # a condition on one or two bits: canonical rules of the assignments left
            if len(xs) == 1:
                self.rule(vs, p ^ {vs})
            else:
                x, y = xs
                Z = [m for m in (0, x, y, x | y) if not sum(1 for t in p if not (t & ~m)) & 1 and self.holds2(x | y, m)]
                if not Z:
                    raise Infeasible()
                if len(Z) == 3:
                    q = self.indicator(x | y, [m for m in (0, x, y, x | y) if m not in Z])
                    self.rule(x | y, q ^ {x | y})
                else:
                    for v, o in ((y, x), (x, y)):
                        s = {bool(m & v) for m in Z}
                        if len(s) == 1:
                            self.rule(v, ONE if s == {True} else ZERO)
                    if len(Z) == 2 and (Z[0] ^ Z[1]) == (x | y):
                        self.rule(y, frozenset((x,)) if Z[0] in (0, x | y) else frozenset((x, 0)))
        else:
            lead = max(p, key=lambda m: (bin(m).count("1"), m))
            self.rows.append((lead, p))
            self.rows = [(v, q if v == lead or lead not in q else q ^ p) for v, q in self.rows]
        if not batch:
            self.settle()

    def holds2(self, k, m):
        q = self.rules.get(k)
        return q is None or sum(1 for t in q if not (t & ~m)) & 1 == int(not (k & ~m))

    def rule(self, lead, q):
        """lead -> q, and the rules and rows that contain lead again."""
        q = self.reduce(q)
        if lead in self.rules:
            self.add_zero(self.rules.pop(lead) ^ q, True)
            q = self.reduce(q)
        again = []
        for k in list(self.rules):
            if k & lead == lead or any(m & lead == lead for m in self.rules[k]):
                again.append(self.rules.pop(k) ^ {k})
        self.rules[lead] = q
        rows, self.rows = self.rows, []
        for q in again:
            self.add_zero(q, True)
        for _, q in rows:
            self.add_zero(q, True)

    def settle(self):
        again = True
        while again:
            again = False
            fs, self.facts = self.facts, []
            for k, f in enumerate(fs):
                g = []
                done = False
                for p in f:
                    p = self.full(p)
                    if p == ONE:
                        done = True
                        break
                    if p:
                        g.append(p)
                if done:
                    continue
                if not g:
                    raise Infeasible()
                if len(set(g)) == 1:
                    self.facts += fs[k + 1:]
                    self.add_zero(g[0] ^ ONE, True)
                    again = True
                    break
                self.facts.append(g)

    # ---- decisions
    def _fork(self, vals):
        i = len(self.taken)
        if i < len(self.prefix):
            r = self.prefix[i]
        else:
            r = vals[0]
            for v in reversed(vals[1:]):
                self.alts.append(self.taken + [v])
            self.forks += 1
        self.taken.append(r)
        return r

    def bit(self, p):
        """Is the Boolean polynomial 1?"""
        p = self.full(p)
        if not p:
            return False
        if p == ONE:
            return True
        r = self._fork([True, False])
        self.add_zero(p ^ ONE if r else p)
        return r

    def allzero(self, ps):
        g = []
        raw = [p for p in ps if p and p != ONE]
        if len(raw) == 1:
            self.asked.append(raw[0])
        for p in ps:
            p = self.full(p)
            if p == ONE:
                return False
            if p:
                g.append(p)
        if not g:
            return True
        s = set(g)
        if len(s) == 1:
            return not self.bit(g[0])
        for f in self.facts:
            if all(p in s for p in f):
                return False
        r = self._fork([True, False])
        if r:
            for p in g:
                self.add_zero(p, True)
            self.settle()
        else:
            self.facts = [f for f in self.facts if not s <= set(f)] + [g]
            self.settle()
        return r

    # ---- counts
    def component(self, vs):
        """Allowed assignments (dicts variable -> 0/1) of a small set of variables."""
        vs = list(vars_of(vs))
        M = 0
        for v in vs:
            M |= v
        rel = [(k, q) for k, q in self.rules.items() if not (k & ~M) and all(not (m & ~M) for m in q)]
        out = []
        for a in range(1 << len(vs)):
            m = 0
            for k, v in enumerate(vs):
                if a >> k & 1:
                    m |= v
            ok = True
            for k, q in rel:
                l = int(not (k & ~m))
                for t in q:
                    l ^= int(not (t & ~m))
                if l:
                    ok = False
                    break
            if ok:
                out.append(m)
        return out

    def split(self, d):
        """Integer polynomial -> [(variables, polynomial over them)] and the constant."""
        comps = []
        for m in d:
            if not m:
                continue
            vs = m
            # variables tied by rules
            rest = []
            for c in comps:
                if c & vs:
                    vs |= c
                else:
                    rest.append(c)
            comps = rest + [vs]
        ch = True
        while ch:
            ch = False
            for k, q in self.rules.items():
                vs = k
                for m in q:
                    vs |= m
                hit = [c for c in comps if c & vs]
                if hit and (len(hit) > 1 or vs & ~hit[0]):
                    for c in hit:
                        comps.remove(c)
                        vs |= c
                    comps.append(vs)
                    ch = True
        out = []
        for c in comps:
            out.append((c, {m: x for m, x in d.items() if m and not (m & ~c)}))
        return out, d.get(0, 0)

    def irow_reduce(self, d):
        d = dict(d)
        for pv, q in self.irows:
            if pv in d:
                f = Fraction(d[pv]) / q[pv]
                for m, c in q.items():
                    x = d.get(m, 0) - f * c
                    if x:
                        d[m] = x
                    else:
                        d.pop(m, None)
        return d

    def values(self, d):
        """(min, max, parts): bounds of an integer polynomial on the path."""
        parts, c0 = self.split(d)
        lo = hi = c0
        info = []
        for vs, q in parts:
            if bin(vs).count("1") > 10:
                a = sum(min(0, x) for x in q.values())
                b = sum(max(0, x) for x in q.values())
                info.append((vs, q, None, a, b))
            else:
                al = self.component(vs)
                if not al:
                    raise Infeasible()
                w = {m: sum(x for t, x in q.items() if not (t & ~m)) for m in al}
                a, b = min(w.values()), max(w.values())
                info.append((vs, q, w, a, b))
            lo += a
            hi += b
        return lo, hi, info

    def iszero(self, cnt):
        """Is the count 0?"""
        for d in (cnt.d, self.irow_reduce(cnt.d)):
            lo, hi, info = self.values(d)
            if lo > 0 or hi < 0:
                return False
            if lo == hi:
                return lo == 0
        if lo == 0 or hi == 0:
            at = []
            for vs, q, w, a, b in info:
                if w is None:
                    raise Unsupported("count over many tied bits")
                t = a if lo == 0 else b
                bad = [m for m, x in w.items() if x != t]
                if bad:
                    at.append(self.indicator(vs, bad))
            return self.allzero(at)
        r = self._fork([True, False])
        if r:
            self.add_izero(d)
        else:
            self.apart.append(dict(cnt.d))
        return r

    def indicator(self, vs, ms):
        p = ZERO
        for m in ms:
            t = ONE
            for v in vars_of(vs):
                f = frozenset((v,))
                t = mul(t, f if m & v else f ^ ONE)
            p = p ^ t
        return p

    def add_izero(self, d):
        if all(isinstance(c, int) or c.denominator == 1 for c in d.values()):
            self.add_zero(frozenset(m for m, c in d.items() if int(c) & 1))
        d = self.irow_reduce(d)
        lo, hi, info = self.values(d)
        if lo > 0 or hi < 0:
            raise Infeasible()
        if lo == hi:
            return
        if (lo == 0 or hi == 0) and all(i[2] is not None for i in info):
            for vs, q, w, a, b in info:
                t = a if lo == 0 else b
                bad = [m for m, x in w.items() if x != t]
                if bad:
                    self.add_zero(self.indicator(vs, bad), True)
            self.settle()
            return
        pv = max((m for m in d if m), key=lambda m: (bin(m).count("1"), m))
        self.irows.append((pv, dict(d)))
        for q in self.apart:
            if not self.irow_reduce(q):
                raise Infeasible()

    def value(self, cnt):
        """The value of a count: one path for each."""
        lo, hi, _ = self.values(cnt.d)
        if lo != hi:
            l2, h2, _ = self.values(self.irow_reduce(cnt.d))
            lo, hi = max(lo, l2), min(hi, h2)
        lo, hi = -int(-lo // 1), int(hi // 1)
        if lo == hi:
            return lo
        if hi - lo > 200:
            raise Unsupported("count with a large range")
        k = self._fork(list(range(lo, hi + 1)))
        self.add_izero(cnt.lin(Cnt(cnt.n, {0: k}), -1).d)
        return k

    # ---- points on the path
    def assignments(self, nvars, rng, want=4, tries=600):
        got = 0
        one = [1 << k for k in range(nvars)]
        rules = self.rules
        for t in range(tries):
            if got >= want:
                return
            p = (.5, .1, .9, .03, .97, .3, .7)[t % 7]
            m = 0
            for v in one:
                if rng.random() < p:
                    m |= v
            # rules: leading variables follow the others; pairs are repaired by choosing again
            for _ in range(4):
                ok = True
                for k, q in rules.items():
                    x = 0
                    for s in q:
                        x ^= not (s & ~m)
                    y = not (k & ~m)
                    if x != y:
                        ok = False
                        if k in one:
                            m ^= k
                        else:
                            vs = [v for v in vars_of(k)]
                            m ^= rng.choice(vs)
                if ok:
                    break
            if self.holds(m):
                got += 1
                yield m

    def holds(self, m):
        ev = lambda p: sum(1 for t in p if not (t & ~m)) & 1
        for k, q in self.rules.items():
            if ev(q) != int(not (k & ~m)):
                return False
        for _, q in self.rows:
            if ev(q):
                return False
        for f in self.facts:
            if not any(ev(p) for p in f):
                return False
        for _, q in self.irows:
            if sum(c for t, c in q.items() if not (t & ~m)):
                return False
        for q in self.apart:
            if not sum(c for t, c in q.items() if not (t & ~m)):
                return False
        return True


class BitExec(Exec):
    def truth(self, c):
        if isinstance(c, BCond):
            if c.kind == "zero":
                r = self.ctx.allzero(c.x)
            elif c.kind == "count":
                r = self.ctx.iszero(c.x)
            elif c.kind == "hot" and periodic(c.x) is not None:
                r = not self.ctx.bit(periodic(c.x))
            elif c.kind == "hot":
                r = not (c.x.mask >> self.ctx.value(c.x.c) & 1)
            return r != c.neg
        if isinstance(c, BV):
            return not self.ctx.allzero(c.b[:1])
        if isinstance(c, Cnt):
            return not self.ctx.allzero([c.parity()])
        return super().truth(c)

    SYM = (BV, Cnt, Hot, BCond)

    def iop(self, op, n, a, b):
        if not isinstance(a, self.SYM) and not isinstance(b, self.SYM):
            return super().iop(op, n, a, b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if n == 1:
            if op in ("and", "or") and isinstance(a, BCond) and isinstance(b, BCond) or isinstance(a, (BCond, Cond)) or isinstance(b, (BCond, Cond)):
                a = int(self.truth(a)) if isinstance(a, (BCond, Cond)) else a
                b = int(self.truth(b)) if isinstance(b, (BCond, Cond)) else b
                if isinstance(a, int) and isinstance(b, int):
                    return super().iop(op, n, a, b)
            if op in ("add", "sub"):
                op = "xor"
        if isinstance(a, RF) or isinstance(b, RF):
            a = self.number(a) if not isinstance(a, RF) else a
            b = self.number(b) if not isinstance(b, RF) else b
            return super().iop(op, n, a, b)
        M = (1 << n) - 1
        if op in ("shl", "lshr", "ashr") and not isinstance(b, int):
            if isinstance(b, BV):
                b = Cnt.of(b, n)
            lo, hi, _ = self.ctx.values(b.d)
            if lo < 0 or hi >= n:
                k = self.ctx.value(b)
                if not 0 <= k < n:
                    raise Fault("shift amount out of range", f"{op} by {k}")
                return self.iop(op, n, a, k)
            if op == "shl" and a == 1:
                return Hot(n, b, M)
            return self.iop(op, n, a, self.ctx.value(b))
        if op in ("shl", "lshr", "ashr") and not 0 <= b < n:
            raise Fault("shift amount out of range", f"{op} by {b}")
        if isinstance(a, Hot) or isinstance(b, Hot):
            h, o = (a, b) if isinstance(a, Hot) else (b, a)
            if op == "and" and isinstance(o, int):
                return Hot(h.n, h.c, h.mask & o)
            return self.iop(op, n, self.hot(a), self.hot(b))
        if op in ("and", "or", "xor"):
            if op == "and":
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, Cnt) and y == 1:
                        return BV(n, [x.parity()] + [ZERO] * (n - 1)).norm()
                    if isinstance(x, Cnt) and isinstance(y, int):
                        r = fields(x, y & M)
                        if r is not None:
                            return r
            a, b = (self.ctx.value(x) & M if isinstance(x, Cnt) else x for x in (a, b))
            if isinstance(a, int) and isinstance(b, int):
                return super().iop(op, n, a, b)
            a = lift(a, n)
            r = a & b if op == "and" else a | b if op == "or" else a ^ b
            return r.norm()
        if op == "shl" and isinstance(a, BV):
            return a.shl(b).norm()
        if op == "lshr" and isinstance(a, BV):
            return a.shr(b).norm()
        if op == "shl" and isinstance(a, Cnt):
            return a.scale(1 << b)
        if op in ("lshr", "ashr") and isinstance(a, Cnt):
            if all(c > 0 for c in a.d.values()) and sum(a.d.values()) < 1 << (n if op == "lshr" else n - 1) and sum(c & ((1 << b) - 1) for c in a.d.values()) < 1 << b:
                return Cnt(n, {m: c >> b for m, c in a.d.items() if c >> b})
            return super().iop(op, n, self.ctx.value(a) & M, b)
        if op == "sub" and a == 0 and isinstance(b, BV) and sum(1 for p in b.b if p and p != ONE) > 1:
            r = ripple(BV(n, [p ^ ONE for p in b.b]), 1)
            if r is not None:
                return r.norm()
        if op == "add":
            for x, y in ((a, b), (b, a)):
                if isinstance(x, BV) and isinstance(y, int) and sum(1 for p in x.b if p and p != ONE) > 1:
                    r = ripple(x, y)
                    if r is not None:
                        return r.norm()
        if op in ("add", "sub"):
            x, y = Cnt.of(a, n), Cnt.of(b, n)
            r = x.lin(y, 1 if op == "add" else -1)
            lo, hi = r.lo, r.hi
            if hi < 1 << (n - 1) and lo >= -(1 << (n - 1)):
                return r
            lo, hi, _ = self.ctx.values(r.d)
            if hi >= 1 << (n - 1) or lo < -(1 << (n - 1)):
                if lo < 0 or sum(max(0, c) for c in r.d.values()) >= 1 << n:
                    raise Unsupported("possible overflow of a count")
            return r
        if op == "mul" and (isinstance(a, int) or isinstance(b, int)):
            if isinstance(a, int):
                a, b = b, a
            k = b - (1 << n) if b >> (n - 1) else b
            x = Cnt.of(a, n)
            if all(c > 0 for c in x.d.values()):
                d = {m: c * b & M for m, c in x.d.items() if c * b & M}
                if sum(d.values()) < 1 << n:
                    return Cnt(n, d)
            r = x.scale(k)
            if sum(abs(c) for c in r.d.values()) >= 1 << (n - 1):
                raise Unsupported("possible overflow of a count")
            return r
        if isinstance(a, Cnt) or isinstance(b, Cnt):
            a, b = (self.ctx.value(x) & M if isinstance(x, Cnt) else x for x in (a, b))
            return self.iop(op, n, a, b)
        raise Unsupported(f"bit-level operation {op}")

    def hot(self, h):
        if isinstance(h, Hot):
            return (1 << self.ctx.value(h.c)) & h.mask
        return h

    def number(self, x):
        if isinstance(x, BCond):
            return int(self.truth(x))
        if isinstance(x, BV):
            x = Cnt.of(x, x.n)
        if isinstance(x, Cnt):
            return RF.const(self.ctx.value(x))
        if isinstance(x, Hot):
            return self.hot(x)
        return x

    def icmp(self, pred, ty, a, b):
        if not isinstance(a, self.SYM) and not isinstance(b, self.SYM):
            return super().icmp(pred, ty, a, b)
        if a is UNDEF or b is UNDEF:
            return UNDEF
        n = ty.n
        if isinstance(a, BCond):
            a = int(self.truth(a))
        if isinstance(b, BCond):
            b = int(self.truth(b))
        if isinstance(a, (RF, Cond)) or isinstance(b, (RF, Cond)) or isinstance(a, int) and isinstance(b, int):
            return super().icmp(pred, ty, self.number(a), self.number(b))
        if pred in ("eq", "ne"):
            neg = pred == "ne"
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Hot):
                    if y == 0:
                        return BCond("hot", x, neg)
                    if isinstance(y, int) and y and not (y & (y - 1)) and y & x.mask:
                        return BCond("count", x.c.lin(Cnt(n, {0: y.bit_length() - 1}), -1), neg)
            if isinstance(a, Hot) or isinstance(b, Hot):
                return self.icmp(pred, ty, self.hot(a), self.hot(b))
            if isinstance(a, Cnt) or isinstance(b, Cnt):
                return BCond("count", Cnt.of(a, n).lin(Cnt.of(b, n), -1), neg)
            return BCond("zero", list((lift(a, n) ^ b).b), neg)
        a, b = self.hot(a), self.hot(b)
        # thresholds that are powers of two
        if isinstance(a, BV) and isinstance(b, int):
            if pred == "slt" and b == 0 or pred == "sgt" and b == (1 << n) - 1:
                return BCond("zero", [a.b[n - 1]], pred == "slt")
            if pred[0] == "u" or a.b[n - 1] == ZERO and not b >> (n - 1):
                p = pred[1:]
                t = {"lt": b, "ge": b, "le": b + 1, "gt": b + 1}[p]
                if t and not (t & (t - 1)):
                    return BCond("zero", list(a.b[t.bit_length() - 1:]), p in ("ge", "gt"))
        if isinstance(a, int) and isinstance(b, BV):
            return self.icmp({"lt": pred[0] + "gt", "gt": pred[0] + "lt", "le": pred[0] + "ge", "ge": pred[0] + "le"}[pred[1:]], ty, b, a)
        x, y = Cnt.of(a, n), Cnt.of(b, n)
        if pred[0] == "s":
            for z in (x, y):
                if self.ctx.values(z.d)[1] >= 1 << (n - 1):
                    raise Unsupported("signed comparison of a large count")
        if pred[0] == "u":
            for z in (x, y):
                if self.ctx.values(z.d)[0] < 0:
                    raise Unsupported("unsigned comparison of a count that may be negative")
        p = pred[1:]
        d = x.lin(y, -1)
        lo, hi, _ = self.ctx.values(d.d)
        if p in ("ge", "lt"):
            # x >= y: determined, or by the value
            if lo >= 0:
                return int(p == "ge")
            if hi < 0:
                return int(p == "lt")
            if lo == -1 and hi <= 0 or hi == 0:
                return BCond("count", d, p == "lt")
        else:
            if hi <= 0:
                return int(p == "le")
            if lo > 0:
                return int(p == "gt")
            if lo == 0:
                return BCond("count", d, p == "gt")
        v = self.ctx.value(x) - self.ctx.value(y)
        return int({"lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0}[p])

    def cast(self, op, t1, v, t2):
        if not isinstance(v, self.SYM):
            return super().cast(op, t1, v, t2)
        if isinstance(v, BCond):
            return super().cast(op, t1, int(self.truth(v)), t2)
        if op in ("zext", "sext", "trunc"):
            if isinstance(v, BV):
                b = v.b[:t2.n] if t2.n <= t1.n else v.b + ((v.b[-1] if op == "sext" else ZERO),) * (t2.n - t1.n)
                return BV(t2.n, b).norm()
            if isinstance(v, Cnt):
                if t2.n == 1:
                    return BV(1, [v.parity()]).norm()
                lo, hi = v.lo, v.hi
                if hi < 1 << (min(t1.n, t2.n) - 1) and lo >= 0:
                    return Cnt(t2.n, v.d, v.lo, v.hi)
                lo, hi, _ = self.ctx.values(v.d)
                if op != "zext" and hi >= 1 << (min(t1.n, t2.n) - 1) or lo < 0 and op == "zext" or lo < -(1 << (t2.n - 1)):
                    raise Unsupported("cast of a large count")
                return Cnt(t2.n, v.d)
            return super().cast(op, t1, self.hot(v), t2)
        if op in ("sitofp", "uitofp"):
            x = self.number(v)
            return x if isinstance(x, RF) else super().cast(op, t1, x, t2)
        raise Unsupported(f"{op} of a symbolic bitset")

    def docall(self, ty, callee, args):
        if callee.startswith("@_ZN2ga"):
            name = self.m.aliases.get(callee, callee)
            f = self.m.fns.get(name)
            if f is not None and not f.decl:
                if CONTRACT_ONES.match(name) and not self.raw:
                    x = args[0][1]
                    if isinstance(x, int):
                        return bin(x & (2**64 - 1)).count("1")
                    if isinstance(x, (BV, Cnt)) and contract_ones(self.m, name):
                        if isinstance(x, Cnt):
                            x = self.ctx.value(x) & (2**64 - 1)
                            return bin(x).count("1")
                        return popcount(x, 64)
                elif ty.__class__.__name__ == "INT" or str(ty).startswith("i"):
                    r = self.summarise(name, args)
                    if r is not None:
                        return r.apply(self.ctx)
        return super().docall(ty, callee, args)

    raw = False

    def summarise(self, name, args):
        """Executes the function once on all its paths and merges them when one polynomial decides between two values."""
        cache = self.m.__dict__.setdefault("_bitsums", {})
        vals = [v for _, v in args]
        seen = {}
        key = (name, tuple(freeze(v, seen) for v in vals))
        if key in cache:
            return cache[key]
        cache[key] = None       # recursion: executed in the ordinary way
        work = [[]]
        res = []
        before = key
        while work:
            prefix = work.pop()
            if len(res) > 400:
                return None
            ctx = BCtx(prefix)
            ex = BitExec(self.m, ctx, max_steps=200000)
            try:
                v = ex.call(name, vals)
                if not isinstance(v, int):
                    if not isinstance(v, (Cnt, BV)):
                        return None
                res.append((ctx, v))
            except Infeasible:
                pass
            except (Fault, Outcome, Unsupported):
                return None
            work += ctx.alts
            seen = {}
            if (name, tuple(freeze(v, seen) for v in vals)) != before:
                return None     # it has an effect
        out = merge(res)
        cache[key] = out
        return out

    def intrinsic(self, n, ty, args):
        x = args[0][1] if args else None
        if isinstance(x, self.SYM):
            if n.startswith("llvm.ctpop"):
                x = self.hot(x)
                return popcount(x, x.n) if isinstance(x, BV) else super().intrinsic(n, ty, [(args[0][0], self.ctx.value(x))] + args[1:])
            if n.startswith("llvm.abs"):
                v = self.ctx.value(Cnt.of(x, x.n))
                return abs(v)
            if n.startswith(("llvm.smax", "llvm.smin", "llvm.umax", "llvm.umin")) or isinstance(args[1][1] if len(args) > 1 else None, self.SYM):
                raise Unsupported(n)
        return super().intrinsic(n, ty, args)


import re
CONTRACT_ONES = re.compile(r"^@_ZN2ga6detail4onesE[my]$")
DEFINE = re.compile(r"^define [^\n]*? (i8|i16|i32|i64) (@_ZN2ga[\w.]+)\([^\n]*\{\n(.*?)^\}$", re.M | re.S)


def keep_helpers(t):
    """Helper functions under contract, and integer functions of the library with loops or recursion, stay calls."""
    groups = {}
    text = dict(re.findall(r"^attributes #(\d+) = \{([^\n]*)\}$", t, flags=re.M))

    def attr(m):
        k = m.group(1)
        groups[k] = 90000 + int(k)
        return f"#{90000 + int(k)}"

    def sub(m):
        body = m.group(3)
        if CONTRACT_ONES.match(m.group(2)) or "!llvm.loop" in body or m.group(2) + "(" in body:
            head, rest = m.group(0).split("\n", 1)
            return re.sub(r"#(\d+)", attr, head) + "\n" + rest
        return m.group(0)
    t = DEFINE.sub(sub, t)
    for k, g in groups.items():
        t += f"\nattributes #{g} = {{ noinline {text[k].replace('alwaysinline', '').replace('noinline', '')} }}\n"
    return t


def helper(name):
    return name.startswith("@_ZN2ga")


def merge(res):
    if not res:
        return None
    vs = {v for _, v in res if isinstance(v, int)}
    if any(not isinstance(v, int) for _, v in res):
        # one value that all paths agree with
        top = max(res, key=lambda r: len(r[1].d) if isinstance(r[1], Cnt) else sum(map(len, r[1].b)) if isinstance(r[1], BV) else 0)[1]
        return Summary(None, top, None) if all(same_value(c, v, top) for c, v in res) else None
    if len(vs) == 1:
        return Summary(None, vs.pop(), None)
    if len(vs) != 2:
        return None
    cand = [p for c, v in res for p in c.asked[-1:]]
    if not cand:
        return None
    p = max(cand, key=len)
    side = {}
    for c, v in res:
        q = c.full(p)
        if q != ONE and q:
            return None
        if side.setdefault(bool(q), v) != v:
            return None
    if len(side) != 2:
        return None
    return Summary(p, side[True], side[False])


def same_value(ctx, v, top):
    """Under the conditions of the path v and top are the same number."""
    n = top.n
    if isinstance(top, BV) and not isinstance(v, Cnt):
        return same_bits(ctx, lift(v, n), top)
    d = Cnt.of(v, n).lin(Cnt.of(top, n), -1).d
    r = {}
    for m, c in d.items():
        # monomials that vanish on the path
        for t, k in int_of_anf(ctx.reduce(frozenset((m,)))).items():
            x = r.get(t, 0) + c * k
            if x:
                r[t] = x
            else:
                r.pop(t, None)
    lo, hi, _ = ctx.values(r)
    return lo == hi == 0


def contract_ones(m, name):
    """The contract of `ones` (the number of set bits), verified on its body for all 64-bit arguments."""
    r = m.__dict__.get("_ones_ok")
    if r is None:
        m._ones_ok = r = False
        x = BV(64, [var(i) for i in range(64)])
        spec = popcount(x, 64)
        work, r, n = [[]], True, 0
        while work and r:
            ctx = BCtx(work.pop())
            ex = BitExec(m, ctx)
            ex.raw = True
            n += 1
            try:
                v = ex.call(name, [x])
                r = n < 200 and (isinstance(v, Cnt) and v.d == spec.d or isinstance(v, (int, Cnt, BV)) and same_value(ctx, v, spec))
            except Infeasible:
                pass
            except (Fault, Outcome, Unsupported):
                r = False
            work += ctx.alts
        m._ones_ok = r
    return r


class Summary:
    """A function without effects whose value is v1 or v0 as the Boolean polynomial p says (or always v1)."""

    def __init__(self, p, v1, v0):
        self.p, self.v1, self.v0 = p, v1, v0

    def apply(self, ctx):
        if self.p is None:
            return self.v1
        return self.v1 if ctx.bit(self.p) else self.v0


def freeze(x, seen):
    if isinstance(x, Ptr):
        if x.o is None:
            return ("null", x.off)
        if x.o.alive is False:
            return ("dead",)
        k = id(x.o)
        if k in seen:
            return ("seen", seen[k], x.off)
        seen[k] = len(seen)
        return ("ptr", x.off, x.o.size, tuple(sorted((o, c[0], freeze(c[1], seen)) for o, c in x.o.cells.items())) if not any(isinstance(o, str) for o in x.o.cells) else None)
    if isinstance(x, BV):
        return ("bv", x.n, x.b)
    if isinstance(x, Cnt):
        return ("cnt", x.n, tuple(sorted(x.d.items())))
    if isinstance(x, int):
        return ("int", x)
    if isinstance(x, FV):
        return ("fv", id(x.v))
    return ("other", id(x))


def rank(x):
    return repr(x)


# ------------------------------------------------------------------ specifications
class D:
    """What a specification sees: bitsets and the decisions of the path."""

    def __init__(self, ctx, space, blades, idx, reals, consts=None):
        self.ctx, self.sp = ctx, space.o
        self.N = space.n
        self.I = (1 << space.n) - 1
        self.neg = self.nul = 0
        for k in range(space.n):
            q = space.o.g.get((k, k), 0)
            if q < 0:
                self.neg |= 1 << k
            elif q == 0:
                self.nul |= 1 << k
        self.b = blades
        self.r = reals
        self.i = idx

    def zero(self, bv):
        return self.ctx.allzero(list(bv.b))

    def grade(self, bv):
        return self.ctx.value(popcount(bv, 64))

    def odd(self, anf):
        return self.ctx.bit(anf)

    @staticmethod
    def swaps(l, r):
        """Parity of the number of pairs i > j with i in l, j in r."""
        acc = set()
        low = set()
        for i in range(len(l.b)):
            if l.b[i] and low:
                acc ^= mul(l.b[i], frozenset(low))
            low ^= r.b[i]
        return frozenset(acc)

    @staticmethod
    def swapcount(l, r):
        """Number of pairs i >= j with i in l, j in r."""
        d = {}
        for i in range(64):
            for j in range(i + 1):
                for m in mul(l.b[i], r.b[j]):
                    d[m] = d.get(m, 0) + 1
        return Cnt(64, d)

    @staticmethod
    def par(bv):
        r = ZERO
        for p in bv.b:
            r = r ^ p
        return r

    def no(self, bv):
        return bv ^ self.I

    def sgn(self, p):
        return -1 if self.odd(p) else 1

    # products of basis blades: (sign, bitset); sign 0: the product vanishes
    def gp(self, l, r):
        m = l & r
        if self.nul and not self.zero(m & self.nul):
            return 0, l ^ r
        return self.sgn(self.swaps(l, r) ^ self.par(m & self.neg)), l ^ r

    def op(self, l, r):
        if not self.zero(l & r):
            return 0, l ^ r
        return self.sgn(self.swaps(l, r)), l ^ r

    def lcont(self, l, r):
        return self.gp(l, r) if self.zero(l & self.no(r)) else (0, l ^ r)

    def rcont(self, l, r):
        return self.gp(l, r) if self.zero(r & self.no(l)) else (0, l ^ r)

    def dot(self, l, r):
        return self.gp(l, r) if self.zero(l & self.no(r)) or self.zero(r & self.no(l)) else (0, l ^ r)

    def hip(self, l, r):
        return (0, l ^ r) if self.zero(l) or self.zero(r) else self.dot(l, r)

    def sp_(self, l, r):
        return (self.gp(l, r)[0], BV.const(64, 0)) if self.zero(l ^ r) else (0, BV.const(64, 0))

    def rp(self, l, r):
        m = l & r
        if not self.zero(self.no(l | r)):
            return 0, m
        cl, cr = self.no(l), self.no(r)
        return self.sgn(self.swaps(l, cl) ^ self.swaps(r, cr) ^ self.swaps(cl, cr) ^ self.swaps(m, cl | cr)), m

    def rev(self, l):
        return self.sgn(bit2(popcount(l, 64))), l

    def inv_(self, l):
        return self.sgn(self.par(l)), l

    def conj(self, l):
        return self.sgn(bit2(popcount(l, 64)) ^ self.par(l)), l

    def const(self, x):
        return BV.const(64, x)


class BCase(Case):
    """Contract over basis blades with run-time bitsets.  blades: names of operands $0 * (blade #0); outs: (C++, symbolic specification
    D -> [(coefficient RF, bitset)], numeric specification Env -> MV)."""

    def __init__(self, prop, name, space, ops, outs, **kw):
        self.symspec = [o[1] for o in outs]
        super().__init__(prop, name, space, ops, [(o[0], o[2]) for o in outs], **kw)
        self.bits = True
        for k in range(self.nidx):
            pass


def random_bitset(rng, n):
    p = rng.choice((.5, .5, .1, .9, .03, .3))
    return sum(1 << k for k in range(n) if rng.random() < p)


def related(rng, n, prev):
    """Bitsets in the relations that matter: disjoint, contained, equal, complementary."""
    I = (1 << n) - 1
    a = random_bitset(rng, n)
    if not prev:
        return a
    l = prev[-1]
    k = rng.randrange(8)
    return {0: a, 1: a & ~l & I, 2: a & l, 3: a | l, 4: l, 5: ~l & I, 6: (a & ~l | (1 << n - 1)) & I, 7: a | (~l & I)}[k]


def random_idx(case, rng):
    out = []
    for k, dom in enumerate(case.idxdom):
        if dom and dom[0] == "bits":
            out.append(related(rng, case.space.n, [x for x, d in zip(out, case.idxdom) if d and d[0] == "bits"]))
        else:
            out.append(rng.choice(dom))
    return out


def verify(case, mod, sym, rng, budget):
    from . import verify as V
    R = V.Result(case)
    t0, c0 = time.time(), time.process_time()
    combos = [[]]
    for d in case.idxdom:
        combos = [c + [x] for c in combos for x in ([None] if d and d[0] == "bits" else d)]
    for idx in combos:
        R.combos += 1
        run(case, mod, sym, idx, rng, R, c0 + budget)
        if len(R.failed) + len(R.faults) >= 8:
            break
    R.time = time.time() - t0
    return R


def run(case, mod, sym, idx, rng, R, deadline):
    from . import verify as V
    S.reset()
    reals = {s: S.new_var(nm) for s, nm in case.reals}
    vidx = []
    blades = []
    nv = 0
    n = case.space.n
    for k, x in enumerate(idx):
        if x is None:
            b = BV(64, [var(nv + i) if i < n else ZERO for i in range(64)])
            blades.append((k, nv))
            nv += n
            vidx.append(b)
        else:
            vidx.append(x)
    work = [[]]
    npaths = 0
    while work:
        if time.process_time() > deadline:
            raise V.Budget("time budget of the case exceeded")
        prefix = work.pop()
        npaths += 1
        if npaths > 20000:
            raise Unsupported("path limit")
        ctx = BCtx(prefix)
        tag = f"{case.name}{[x for x in idx if x is not None] or ''}/path{npaths}"
        try:
            fault = None
            got = None
            try:
                got = run_code(case, mod, sym, ctx, reals, vidx)
            except Fault as f:
                fault = f
            except Outcome as o:
                fault = o
            want = None
            if fault is None:
                dd = D(ctx, case.space, [x for x in vidx if isinstance(x, BV)], [x for x in idx if x is not None], [reals[s] for s, _ in case.reals])
                want = [f(dd) for f in case.symspec]
            R.paths += 1

            def points(want=6):
                for m in ctx.assignments(nv, rng, want):
                    ix = list(idx)
                    for k, base in blades:
                        ix[k] = (m >> base) & ((1 << n) - 1)
                    yield m, ix

            def wit(ix):
                return {"idx": ix, "vals": {f"a{s}": str(Fraction(rng.randint(1, 24), 8)) for s, _ in case.reals}}
            if fault is not None:
                R.obligations += 1
                for m, ix in points(1):
                    R.faults.append({"obligation": tag + "/defined-behaviour", "detail": str(fault), "point": wit(ix)})
                    break
                else:
                    R.undischarged.append({"obligation": tag + "/defined-behaviour", "detail": f"{fault}; no point of the path found"})
                continue
            R.returned += 1
            R.obligations += 1
            R.discharged += 1
            R.by["normal-form"] += 1
            for s, (g, w) in enumerate(zip(got, want)):
                R.obligations += 1
                g = [(b, v) for b, v in g if not v.is_zero()]
                w = [(b, v) for v, b in w if not v.is_zero()]
                if matches(ctx, g, w):
                    R.discharged += 1
                    R.by["normal-form"] += 1
                    if R.vacuity is None and w:
                        R.vacuity = not matches(ctx, g, [(w[0][0], -w[0][1])] + w[1:]) and (isinstance(w[0][0], Cnt) or not matches(ctx, g, [(w[0][0] ^ 1, w[0][1])] + w[1:]))
                    continue
                ob = f"{tag}/out{s}"
                det = f"computed {show(ctx, g)}, specified {show(ctx, w)}"
                hit = None
                for m, ix in points():
                    if conc(g, m) != conc(w, m):
                        hit = ix
                        break
                if hit is not None:
                    R.failed.append({"obligation": ob, "detail": det[:500], "point": wit(hit)})
                else:
                    R.undischarged.append({"obligation": ob, "detail": "not decided: " + det[:500]})
            if R.witness < 3:
                for m, ix in points(1):
                    R.witness += 1
                    if R.sample is None:
                        R.sample = {"contract": case.name, "path": tag, "computed": show(ctx, got[0])[:160], "specified": show(ctx, [(b, v) for v, b in want[0]])[:160]}
            if len(R.failed) >= 8:
                return
        except Infeasible:
            pass
        finally:
            for a in ctx.alts:
                work.append(a)


def conc(g, m):
    d = {}
    for b, v in g:
        x = 0
        if isinstance(b, Cnt):
            x = sum(c for t, c in b.d.items() if not (t & ~m))
        else:
            for k, p in enumerate(b.b):
                if sum(1 for t in p if not (t & ~m)) & 1:
                    x |= 1 << k
        d[x] = d[x] + v if x in d else v
    return {k: v.show() for k, v in d.items() if not v.is_zero()}


def show(ctx, g):
    return "; ".join(f"{v.show()} at bits {[sorted(hex(m) for m in ctx.full(p)) for p in b.b[:4]] if isinstance(b, BV) else 'count'}..." for b, v in g) or "0"


def same_bits(ctx, a, b):
    if isinstance(a, Cnt) or isinstance(b, Cnt):
        return same_value(ctx, a, b) if isinstance(b, Cnt) else same_value(ctx, b, a)
    return all(not ctx.full(p ^ q) for p, q in zip(a.b, b.b))


def gather(ctx, g):
    out = []
    for b, v in g:
        for k, (c, u) in enumerate(out):
            if same_bits(ctx, b, c):
                out[k] = (c, u + v)
                break
        else:
            out.append((b, v))
    return [(b, v) for b, v in out if not v.is_zero()]


def matches(ctx, g, w):
    """Equal as lists of components, up to their order and to components of one blade."""
    g, w = gather(ctx, g), gather(ctx, w)
    if len(g) != len(w):
        return False
    w = list(w)
    for b, v in g:
        for k, (c, u) in enumerate(w):
            if (v - u).is_zero() and same_bits(ctx, b, c):
                del w[k]
                break
        else:
            return False
    return True


def run_code(case, mod, sym, ctx, reals, vidx):
    from .verify import OUT_CELLS
    ex = BitExec(mod, ctx, max_steps=200000)
    A = Obj("a", 8 * max(1, case.nreal))
    for s, v in reals.items():
        A.cells[8 * s] = (8, FV(v))
    N = Obj("n", 8 * max(1, case.nidx))
    for k, v in enumerate(vidx):
        N.cells[8 * k] = (8, v & ((1 << 64) - 1) if isinstance(v, int) else v)
    Q = Obj("q", 8)
    A.ro = N.ro = Q.ro = True
    O = Obj("o", 8 + 24 * OUT_CELLS)
    O.cells[0] = (8, 0)
    ex.call("@" + sym, [Ptr(A, 0), Ptr(N, 0), Ptr(Q, 0), Ptr(O, 0)])
    n = O.cells[0][1]
    if not isinstance(n, int):
        raise Unsupported("symbolic number of results")
    secs = [[] for _ in case.outs]
    for k in range(n):
        s = O.cells[8 + 24 * k][1]
        b = O.cells[16 + 24 * k][1]
        e = O.cells.get(24 + 24 * k)
        v = e[1] if e else UNDEF
        if isinstance(v, FV):
            v = v.v
        if isinstance(v, int):
            v = S.ZERO if v == 0 else None
        if v is UNDEF or b is UNDEF or s is UNDEF:
            raise Fault("uninitialised value in the result", f"section {s}")
        if isinstance(b, Hot):
            b = ex.hot(b)
        if isinstance(b, int):
            b = BV.const(64, b)
        if not isinstance(b, (BV, Cnt)) or not isinstance(v, RF) or not isinstance(s, int):
            raise Unsupported(f"result {b!r} {v!r}")
        secs[s].append((b, v))
    return secs
