"""Textbook Clifford algebra over an arbitrary symmetric bilinear form, written independently of GATL.

Basis blades are outer products of basis vectors, a bitset per blade.  The geometric product is built from the
definition only: for a vector v, v X = v.X (left contraction, an antiderivation) + v ^ X, and for a blade
(v ^ B) X = v (B X) - (v.B) X.
"""
from . import sym as S
from .sym import RF


def grade(b):
    return bin(b).count("1")


def wedge_sign(a, b):
    """Sign of sorting the basis vectors of a followed by those of b (0 when they share one)."""
    if a & b:
        return 0
    s = 0
    la = [i for i in range(a.bit_length()) if a >> i & 1]
    lb = [i for i in range(b.bit_length()) if b >> i & 1]
    for i in la:
        for j in lb:
            if i > j:
                s += 1
    return -1 if s & 1 else 1


def add_into(d, b, v):
    x = d.get(b, 0) + v
    if x == 0:
        d.pop(b, None)
    else:
        d[b] = x


class Space:
    def __init__(self, n, metric):
        """metric: dict (i,j)->number for i<=j, 0-based; absent entries are zero."""
        self.n = n
        self.g = {}
        for (i, j), v in metric.items():
            if v != 0:
                self.g[(i, j)] = v
                self.g[(j, i)] = v
        self.rows = {}
        for (i, j), v in self.g.items():
            self.rows.setdefault(i, []).append((j, v))
        self.I = (1 << n) - 1
        self._gp = {}
        self.orth = all(i == j for i, j in self.g)

    def vec_lc(self, i, X):
        """e_i left-contracted onto X (dict blade->number)."""
        r = {}
        for b, c in X.items():
            s = 1
            for j in range(b.bit_length()):
                if b >> j & 1:
                    m = self.g.get((i, j), 0)
                    if m:
                        add_into(r, b ^ (1 << j), c * m * s)
                    s = -s
        return r

    def vec_gp(self, i, X):
        r = self.vec_lc(i, X)
        for b, c in X.items():
            w = wedge_sign(1 << i, b)
            if w:
                add_into(r, b | (1 << i), c * w)
        return r

    def blade_gp(self, a, b):
        k = (a, b)
        r = self._gp.get(k)
        if r is not None:
            return r
        if self.orth and self.n > 8:
            # e_i e_j anticommute and square to the metric: sort by transpositions
            s = 1
            x = a
            for j in range(b.bit_length()):
                if b >> j & 1:
                    for i in range(j + 1, x.bit_length()):
                        if x >> i & 1:
                            s = -s
                    if x >> j & 1:
                        s = s * self.g.get((j, j), 0)
                    x ^= 1 << j
            r = {x: s} if s else {}
        else:
            r = self._bgp(a, {b: 1})
        self._gp[k] = r
        return r

    def _bgp(self, a, X):
        if a == 0:
            return X
        i = (a & -a).bit_length() - 1
        B = a & (a - 1)
        # (e_i ^ B) X = e_i (B X) - (e_i . B) X
        r = dict(self.vec_gp(i, self._bgp(B, X)))
        for b, c in self.vec_lc(i, {B: 1}).items():
            for bb, cc in self._bgp(b, X).items():
                add_into(r, bb, -c * cc)
        return r

    def blade_graded(self, a, b, ok):
        ga, gb = grade(a), grade(b)
        return {x: c for x, c in self.blade_gp(a, b).items() if ok(ga, gb, grade(x))}


class MV:
    """Multivector: dict blade -> RF over a Space."""

    def __init__(self, sp, d=None):
        self.sp = sp
        self.d = d or {}

    def new(self, d):
        return MV(self.sp, d)

    @staticmethod
    def lift(x):
        return x if isinstance(x, RF) else RF.const(x)

    def clean(self):
        self.d = {b: v for b, v in self.d.items() if not v.is_zero()}
        return self

    def __add__(self, o):
        o = self.coerce(o)
        r = dict(self.d)
        for b, v in o.d.items():
            r[b] = r[b] + v if b in r else v
        return self.new(r)

    __radd__ = __add__

    def coerce(self, o):
        return o if isinstance(o, MV) else self.new({0: self.lift(o)})

    def __neg__(self):
        return self.new({b: -v for b, v in self.d.items()})

    def __sub__(self, o):
        return self + (-self.coerce(o))

    def __rsub__(self, o):
        return self.coerce(o) - self

    def scale(self, k):
        k = self.lift(k)
        return self.new({b: v * k for b, v in self.d.items()})

    def _prod(self, o, table):
        r = {}
        for a, x in self.d.items():
            if x.is_zero():
                continue
            for b, y in o.d.items():
                if y.is_zero():
                    continue
                t = table(a, b)
                if not t:
                    continue
                xy = x * y
                for c, k in t.items():
                    z = xy * k if k != 1 else xy
                    r[c] = r[c] + z if c in r else z
        return self.new(r)

    def gp(self, o):
        return self._prod(self.coerce(o), self.sp.blade_gp)

    def op(self, o):
        def t(a, b):
            s = wedge_sign(a, b)
            return {a | b: s} if s else None
        return self._prod(self.coerce(o), t)

    def graded(self, o, ok):
        return self._prod(self.coerce(o), lambda a, b: self.sp.blade_graded(a, b, ok))

    def lcont(self, o):
        return self.graded(o, lambda r, s, t: t == s - r)

    def rcont(self, o):
        return self.graded(o, lambda r, s, t: t == r - s)

    def dot(self, o):
        return self.graded(o, lambda r, s, t: t == abs(r - s))

    def hip(self, o):
        return self.graded(o, lambda r, s, t: r > 0 and s > 0 and t == abs(r - s))

    def sp_(self, o):
        return self.graded(o, lambda r, s, t: t == 0)

    def scalar_part(self):
        return self.d.get(0, S.ZERO)

    def sprod(self, o):
        return self.gp(o).scalar_part()

    def rev(self):
        return self.new({b: -v if grade(b) * (grade(b) - 1) // 2 & 1 else v for b, v in self.d.items()})

    def inv_(self):
        return self.new({b: -v if grade(b) & 1 else v for b, v in self.d.items()})

    def conj(self):
        return self.new({b: -v if grade(b) * (grade(b) + 1) // 2 & 1 else v for b, v in self.d.items()})

    def grades(self, *gs):
        return self.new({b: v for b, v in self.d.items() if grade(b) in gs})

    def rnorm_sqr(self):
        return self.gp(self.rev()).scalar_part()

    def versor_inverse(self):
        return self.rev().scale(S.ONE / self.rnorm_sqr())

    def rp(self, o):
        """Regressive product: the outer product of the complements with respect to the pseudoscalar."""
        n = self.sp.I

        def t(a, b):
            if (a | b) != n:
                return None
            m = a & b
            # J: blade -> right complement; a v b = J^-1(J a ^ J b)
            ca, cb = n ^ a, n ^ b
            s = wedge_sign(a, ca) * wedge_sign(b, cb) * wedge_sign(ca, cb) * wedge_sign(m, ca | cb)
            return {m: s}
        return self._prod(self.coerce(o), t)

    def dual(self):
        I = self.new({self.sp.I: S.ONE})
        return self.lcont(I.versor_inverse())

    def undual(self):
        return self.lcont(self.new({self.sp.I: S.ONE}))

    def get(self, b):
        return self.d.get(b, S.ZERO)

    def __xor__(self, o):
        return self.op(o)

    def __mul__(self, k):
        if isinstance(k, MV):
            return self.gp(k)
        return self.scale(k)

    def __rmul__(self, k):
        return self.scale(k)

    def __repr__(self):
        return " + ".join(f"({v})*e{bin(b)}" for b, v in sorted(self.d.items())) or "0"


def euclid(p, q=0, r=0):
    m = {}
    for i in range(p):
        m[(i, i)] = 1
    for i in range(p, p + q):
        m[(i, i)] = -1
    return Space(p + q + r, m)


def conformal(d):
    m = {(i, i): 1 for i in range(d)}
    m[(d, d + 1)] = -1
    return Space(d + 2, m)
