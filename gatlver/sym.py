"""Exact real arithmetic used by the verification-condition generator.

Values are rational functions over Q in the symbolic inputs and in *atoms*: transcendental or algebraic
applications (sqrt, abs, cos, ...) of other values.  sqrt(p)^2 is rewritten to p and abs(p)^2 to p^2, sin^2 to
1-cos^2 and sinh^2 to cosh^2-1, so two values are equal whenever their difference has a zero normal form.
A zero normal form proves equality for ALL real inputs (where defined); the converse is not needed for soundness.
"""
from fractions import Fraction
import math

BITS = 8
MASK = (1 << BITS) - 1


class Field:
    """Registry of the variables (inputs and atoms) of one symbolic run."""

    def __init__(self):
        self.names = []
        self.atoms = {}      # var index -> (kind, args tuple of RF)
        self.atom_key = {}   # (kind, key...) -> var index
        self.red_mask = 0    # bits of exponents >= 2 of reducible atoms
        self.ints = set()    # variables that are integers
        self.red = []        # list of reducible atom var indices
        self.cubes = {}      # cube-root atoms -> their cubes

    def var(self, name):
        self.names.append(name)
        return len(self.names) - 1


F = Field()
DIV_LOG = None      # numerators of the values a specification divides by
SQRT_LOG = None     # arguments of the square roots (and logarithms) a specification takes


def reset():
    global F, ONE_P, ZERO_P
    F = Field()
    return F


def _norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ("d", "_h", "_k")

    def __init__(self, d):
        self.d = d
        self._h = None
        self._k = None

    @staticmethod
    def const(c):
        c = _norm(c)
        return Poly({0: c}) if c != 0 else Poly({})

    @staticmethod
    def v(i):
        return Poly({1 << (BITS * i): 1})

    def is_zero(self):
        return not self.d

    def is_const(self):
        return not self.d or (len(self.d) == 1 and 0 in self.d)

    def const_value(self):
        return self.d.get(0, 0)

    def __add__(self, o):
        a, b = self.d, o.d
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            x = r.get(m)
            if x is None:
                r[m] = c
            else:
                x = x + c
                if x == 0:
                    del r[m]
                else:
                    r[m] = _norm(x)
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return Poly({})
        if k == 1:
            return self
        return Poly({m: _norm(c * k) for m, c in self.d.items()})

    def mul_raw(self, o):
        a, b = self.d, o.d
        if not a or not b:
            return Poly({})
        if len(b) > len(a):
            a, b = b, a
        if len(b) == 1:
            (mb, cb), = b.items()
            if mb == 0:
                return Poly({m: _norm(c * cb) for m, c in a.items()})
            return Poly({m + mb: _norm(c * cb) for m, c in a.items()})
        r = {}
        get = r.get
        for mb, cb in b.items():
            for ma, ca in a.items():
                m = ma + mb
                r[m] = get(m, 0) + ca * cb
        return Poly({m: _norm(c) for m, c in r.items() if c != 0})

    def __mul__(self, o):
        r = self.mul_raw(o)
        if F.red_mask or F.cubes:
            r = reduce_poly(r)
        return r

    def pow(self, n):
        r = Poly.const(1)
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def content(self):
        """Rational content (positive) of the coefficients."""
        g, l = 0, 1
        for c in self.d.values():
            c = Fraction(c)
            g = math.gcd(g, c.numerator)
            l = l * c.denominator // math.gcd(l, c.denominator)
        return Fraction(g, l) if g else Fraction(1)

    def lead(self):
        return self.d[max(self.d)]

    def canon(self):
        """(unit c, primitive poly p with positive leading coefficient): self == c*p."""
        if not self.d:
            return 0, self
        c = self.content()
        if self.lead() < 0:
            c = -c
        c = _norm(c)
        if c == 1:
            return 1, self
        inv = Fraction(1) / c
        return c, Poly({m: _norm(x * inv) for m, x in self.d.items()})

    def mono_gcd(self):
        """Largest monomial dividing every term, as dict var->exp."""
        it = iter(self.d)
        g = exps(next(it))
        for m in it:
            if not g:
                break
            e = exps(m)
            g = {v: min(k, e[v]) for v, k in g.items() if v in e}
        return g

    def vars(self):
        s = 0
        for m in self.d:
            s |= m
        return set(exps(s))

    def degree(self):
        return max((sum(exps(m).values()) for m in self.d), default=0)

    def manifest_sign(self):
        """subset of '-0+' guaranteed, from even powers/signs of coefficients and non-negative atoms only."""
        if not self.d:
            return "0"
        pos = neg = False
        strict = False
        for m, c in self.d.items():
            for v, k in exps(m).items():
                if k & 1 and not nonneg_atom(v):
                    return "-0+"
            if m == 0 or all(F.atoms.get(v, ("",))[0] in ("exp", "cosh") for v in exps(m)):
                strict = True
            if c > 0:
                pos = True
            else:
                neg = True
        if pos and neg:
            return "-0+"
        if pos:
            return "+" if strict else "0+"
        return "-" if strict else "-0"

    def show(self):
        if not self.d:
            return "0"
        out = []
        for m, c in sorted(self.d.items()):
            t = "*".join(f"{F.names[v]}^{k}" if k > 1 else F.names[v] for v, k in exps(m).items())
            out.append(f"{c}*{t}" if t else str(c))
        return " + ".join(out)


def exps(m):
    r = {}
    while m:
        low = (m & -m).bit_length() - 1
        v = low // BITS
        k = (m >> (BITS * v)) & MASK
        r[v] = k
        m &= ~(MASK << (BITS * v))
    return r


def nonneg_atom(v):
    a = F.atoms.get(v)
    return a is not None and (a[0] in ("sqrt", "abs", "exp", "cosh") or a[0] == "cbrt" and a[1][0].is_const() and a[1][0].const_value() > 0)


def reduce_poly(p):
    """Rewrite squares of sqrt/abs/sin/sinh atoms until none is left."""
    while True:
        hit = None
        for m in p.d:
            if m & F.red_mask:
                hit = True
                break
        if not hit:
            q = reduce_cubes(p) if F.cubes else p
            if q is p:
                return p
            p = q
            continue
        done = {}
        extra = []
        for m, c in p.d.items():
            h = m & F.red_mask
            if not h:
                done[m] = done.get(m, 0) + c
                continue
            for v in F.red:
                k = (m >> (BITS * v)) & MASK
                if k >= 2:
                    break
            rest = m - ((k - (k & 1)) << (BITS * v))
            q = F.sq[v]
            t = Poly({rest: c})
            for _ in range(k // 2):
                t = t.mul_raw(q)
            extra.append(t)
        r = Poly({m: c for m, c in done.items() if c != 0})
        for t in extra:
            r = r + t
        p = r


def reduce_cubes(p):
    """Rewrite cubes of cube-root atoms; returns p itself when there are none."""
    for v, q in F.cubes.items():
        if any((m >> (BITS * v)) & MASK >= 3 for m in p.d):
            r = Poly({})
            for m, c in p.d.items():
                k = (m >> (BITS * v)) & MASK
                t = Poly({m - ((k - k % 3) << (BITS * v)): c})
                for _ in range(k // 3):
                    t = t.mul_raw(q)
                r = r + t
            return r
    return p


def new_atom(kind, args, key, square=None):
    k = (kind,) + key
    v = F.atom_key.get(k)
    if v is None:
        v = F.var(f"{kind}#{len(F.names)}")
        F.atom_key[k] = v
        F.atoms[v] = (kind, args)
        if square is not None:
            if not hasattr(F, "sq"):
                F.sq = {}
            F.sq[v] = square
            F.red.append(v)
            F.red_mask |= (MASK & ~1) << (BITS * v)
    return v


class RF:
    """num / product(den[p]^k); den polys are canonical, non-constant."""
    __slots__ = ("n", "den", "isint")

    def __init__(self, n, den=None):
        self.n = n
        self.den = den or {}

    @staticmethod
    def const(c):
        return RF(Poly.const(c))

    def is_const(self):
        return self.n.is_const() and (not self.den or self.n.is_zero())

    def const_value(self):
        return self.n.const_value()

    def __add__(self, o):
        if not isinstance(o, RF):
            o = RF.const(o)
        if self.n.is_zero():
            return o
        if o.n.is_zero():
            return self
        if self.den == o.den:
            return mk(self.n + o.n, self.den)
        n1, n2 = self.n, o.n
        den = dict(self.den)
        for p, k in o.den.items():
            have = den.get(p, 0)
            if have < k:
                n1 = n1 * p.pow(k - have)
                den[p] = k
            elif have > k:
                n2 = n2 * p.pow(have - k)
        for p, k in self.den.items():
            if p not in o.den:
                n2 = n2 * p.pow(k)
        return mk(n1 + n2, den)

    __radd__ = __add__

    def __neg__(self):
        return RF(-self.n, self.den)

    def __sub__(self, o):
        if not isinstance(o, RF):
            o = RF.const(o)
        return self + (-o)

    def __rsub__(self, o):
        return RF.const(o) + (-self)

    def __mul__(self, o):
        if not isinstance(o, RF):
            if o == 0:
                return RF.const(0)
            return RF(self.n.scale(o), self.den)
        if self.n.is_zero() or o.n.is_zero():
            return RF.const(0)
        if not self.den and not o.den:
            return RF(self.n * o.n)
        den = dict(self.den)
        for p, k in o.den.items():
            den[p] = den.get(p, 0) + k
        n1, n2 = self.n, o.n
        # cheap cancellation: numerator of one is a factor of the other's denominator
        for q in (0, 1):
            n = n1 if q == 0 else n2
            if len(n.d) > 1 or n.degree() > 0:
                c, cp = n.canon()
                if cp in den:
                    den[cp] -= 1
                    if den[cp] == 0:
                        del den[cp]
                    if q == 0:
                        n1 = Poly.const(c)
                    else:
                        n2 = Poly.const(c)
        return mk(n1 * n2, den)

    __rmul__ = __mul__

    def inv(self):
        if self.n.is_zero():
            raise ZeroDivisionError
        if DIV_LOG is not None:
            DIV_LOG.append(self.n)
        num = Poly.const(1)
        for p, k in self.den.items():
            num = num * p.pow(k)
        if self.n.is_const():
            return RF(num.scale(Fraction(1) / self.n.const_value()))
        g = self.n.mono_gcd()
        den = {}
        rest = self.n
        if g and len(self.n.d) >= 1:
            m = 0
            for v, k in g.items():
                den[Poly.v(v)] = k
                m |= k << (BITS * v)
            rest = Poly({mm - m: c for mm, c in self.n.d.items()})
        c, p = rest.canon()
        if not p.is_const():
            den[p] = den.get(p, 0) + 1
        else:
            c = c * p.const_value()
        return mk(num.scale(Fraction(1) / c), den)

    def __truediv__(self, o):
        if not isinstance(o, RF):
            o = RF.const(o)
        return self * o.inv()

    def is_zero(self):
        return self.n.is_zero()

    def key(self):
        r = canon_rf(self)
        return (r.n.key(), tuple(sorted((p.key(), k) for p, k in r.den.items())))

    def show(self):
        s = self.n.show()
        if len(s) > 400:
            s = s[:400] + "..."
        if self.den:
            s = f"({s}) / (" + " * ".join(f"({p.show()[:200]})^{k}" for p, k in self.den.items()) + ")"
        return s

    def __repr__(self):
        return self.show()


def mk(n, den):
    if n.is_zero():
        return RF(n)
    out = None
    for p, k in den.items():
        if k == 0:
            if out is None:
                out = dict(den)
            del out[p]
        elif len(p.d) == 1:  # monomial denominator: cancel powers
            (m, _c), = p.d.items()
            e = exps(m)
            g = n.mono_gcd()
            cancel = k
            for v, x in e.items():
                cancel = min(cancel, g.get(v, 0) // x)
            if cancel > 0:
                if out is None:
                    out = dict(den)
                n = Poly({mm - cancel * m: c for mm, c in n.d.items()})
                if k == cancel:
                    del out[p]
                else:
                    out[p] = k - cancel
    den = out if out is not None else den
    # denominators that are (powers of) square roots are kept; equality is decided on numerators
    return RF(n, den)


def divide_exact(n, p):
    """n / p when exact, else None (multivariate division by the leading term)."""
    if len(n.d) > 4000:
        return None
    lm = max(p.d)
    lc = p.d[lm]
    le = exps(lm)
    r = dict(n.d)
    q = {}
    steps = 0
    while r:
        steps += 1
        if steps > 5000:
            return None
        m = max(r)
        e = exps(m)
        for v, k in le.items():
            if e.get(v, 0) < k:
                return None
        c = _norm(Fraction(r[m]) / lc)
        t = m - lm
        q[t] = c
        for mm, cc in p.d.items():
            x = mm + t
            y = r.get(x, 0) - c * cc
            if y == 0:
                r.pop(x, None)
            else:
                r[x] = _norm(y)
    return Poly(q)


def poly_root(p, k):
    """(c, q) with p = c * q^k, by the leading terms, or None."""
    if not 2 <= len(p.d) <= 60:
        return None
    lm = max(p.d)
    lc = Fraction(p.d[lm])
    t = 0
    for v, x in exps(lm).items():
        if x % k:
            return None
        t |= (x // k) << (BITS * v)
    p = p.scale(1 / lc)
    q = Poly({t: 1})
    for _ in range(14):
        r = p - q.pow(k)
        if not r.d:
            return lc, q
        m = max(r.d)
        if m >= lm:
            return None
        # next term: LT(r) / (k LT(q)^(k-1))
        e = exps(m)
        for v, x in exps(t).items():
            y = e.get(v, 0) - x * (k - 1)
            if y < 0:
                return None
            e[v] = y
        nm = 0
        for v, x in e.items():
            nm |= x << (BITS * v)
        if nm in q.d or nm >= t:
            return None
        q = q + Poly({nm: _norm(Fraction(r.d[m]) / k)})
    return None


def canon_rf(r):
    """Cancel denominator factors that divide the numerator."""
    n, den = r.n, dict(r.den)
    if n.is_zero():
        return RF(n)
    for p in list(den):
        while den.get(p):
            q = divide_exact(n, p)
            if q is None:
                break
            n = q
            den[p] -= 1
            if den[p] == 0:
                del den[p]
    return RF(n, den)


ZERO = RF.const(0)
ONE = RF.const(1)


def new_var(name, integral=False):
    v = F.var(name)
    if integral:
        F.ints.add(v)
    return RF(Poly.v(v))


# ---------------------------------------------------------------- atoms

def _isqrt_frac(c):
    """c = s^2 * t with t squarefree-ish integer; returns (s, t) for rational c > 0."""
    c = Fraction(c)
    n = c.numerator * c.denominator
    s = Fraction(1, c.denominator)
    f = 2
    x = n
    while f * f <= x and f < 2000:
        while x % (f * f) == 0:
            x //= f * f
            s *= f
        f += 1
    r = math.isqrt(x)
    if r * r == x:
        return s * r, 1
    return s, x


def s_abs(x):
    if not isinstance(x, RF):
        return abs(x)
    r = canon_rf(x)
    if r.is_const():
        return RF.const(abs(r.const_value()))
    out = _abs_poly(r.n)
    for p, k in r.den.items():
        out = out / _pow_abs(p, k)
    return out


def _abs_poly(p):
    s = p.manifest_sign()
    if "-" not in s:
        return RF(p)
    if "+" not in s:
        return RF(-p)
    c, q = p.canon()
    out = RF.const(abs(c))
    g = q.mono_gcd()
    m = 0
    for v, k in g.items():
        m |= k << (BITS * v)
        base = RF(Poly.v(v))
        if k & 1 and not nonneg_atom(v):
            out = out * RF(Poly({(k - 1) << (BITS * v): 1})) * _abs_atom(Poly.v(v))
        else:
            out = out * RF(Poly({k << (BITS * v): 1}))
    if m:
        q = Poly({mm - m: c2 for mm, c2 in q.d.items()})
    if not q.is_const():
        c2, q = q.canon()
        out = out * abs(c2)
        s = q.manifest_sign()
        if "-" not in s:
            return out * RF(q)
        for k in (2, 3):
            z = poly_root(q, k)
            if z is not None:
                return out * abs(z[0]) * (RF(z[1] * z[1]) if k == 2 else _abs_poly(z[1]) * RF(z[1] * z[1]))
        out = out * _abs_atom(q)
    else:
        out = out * abs(q.const_value())
    return out


def _abs_atom(q):
    sq = q * q
    v = new_atom("abs", (RF(q),), (q.key(),), square=sq)
    return RF(Poly.v(v))


def s_sqrt(x):
    r = canon_rf(x)
    if SQRT_LOG is not None:
        SQRT_LOG.append(r)
    if r.is_const():
        c = r.const_value()
        if c == 0:
            return RF.const(0)
        if c > 0:
            s, t = _isqrt_frac(c)
            if t == 1:
                return RF.const(s)
            v = new_atom("sqrt", (RF.const(t),), (Poly.const(t).key(),), square=Poly.const(t))
            return RF(Poly.v(v)) * RF.const(s)
    # sqrt(n/d) = sqrt(n*d)/|d|
    n = r.n
    out = ONE
    for p, k in r.den.items():
        if k & 1:
            n = n * p
            out = out / _pow_abs(p, (k + 1) // 2)
        else:
            out = out / _pow_abs(p, k // 2)
    c, q = n.canon()
    if c < 0:
        c, q = -c, -q
    s, t = _isqrt_frac(c)
    out = out * RF.const(s)
    q = q.scale(t)
    # extract monomial squares
    g = q.mono_gcd()
    m = 0
    for v, k in g.items():
        h = k // 2
        if h:
            m |= (2 * h) << (BITS * v)
            out = out * _pow_abs(Poly.v(v), h)
        if k & 1 and len(n.d) == 1 and len(g) > 1 and v in F.atoms and F.atoms[v][0] == "abs":
            m |= 1 << (BITS * v)
            out = out * RF(Poly.v(new_atom("sqrt", (RF(Poly.v(v)),), (Poly.v(v).key(),), square=Poly.v(v))))
    if m:
        q = Poly({mm - m: c2 for mm, c2 in q.d.items()})
    if q.is_const():
        cv = q.const_value()
        if cv == 1:
            return out
    z = poly_root(q, 2)
    if z is not None and z[0] > 0:
        s, t = _isqrt_frac(z[0])
        if t == 1:
            return out * s * _abs_poly(z[1])
    v = new_atom("sqrt", (RF(q),), (q.key(),), square=q)
    return out * RF(Poly.v(v))


def _pow_abs(p, k):
    if k == 0:
        return ONE
    if k & 1 == 0:
        return RF(p.pow(k))
    return _abs_poly(p) * RF(p.pow(k - 1))


NARROW = [False]      # a value of the current contract was rounded to single precision


def s_fun(kind, *args):
    args = tuple(a if isinstance(a, RF) else RF.const(a) for a in args)
    if kind == "sqrt":
        return s_sqrt(args[0])
    if kind == "abs":
        return s_abs(args[0])
    if len(args) == 1 and args[0].is_const():
        c = args[0].const_value()
        if c == 0 and kind in ("sin", "sinh", "tan", "tanh", "cbrt", "atan", "asin"):
            return ZERO
        if c == 0 and kind in ("cos", "cosh", "exp"):
            return ONE
        if c == 1 and kind == "log":
            return ZERO
    if kind == "tan":
        return s_fun("sin", *args) / s_fun("cos", *args)
    if kind == "tanh":
        return s_fun("sinh", *args) / s_fun("cosh", *args)
    if kind == "pow":
        b, e = args
        if e.is_const():
            c = Fraction(e.const_value())
            if c.denominator == 1:
                return rf_ipow(b, int(c))
            if c.denominator == 2:
                return rf_ipow(s_sqrt(b), int(c * 2))
            # the base is not negative (an obligation of the code, see Exec.math)
            q, x = c.denominator, b
            while q % 2 == 0:
                q, x = q // 2, s_sqrt(x)
            while q % 3 == 0:
                q, x = q // 3, s_fun("cbrt", x)
            if q == 1:
                return rf_ipow(x, c.numerator)
        e = canon_rf(e)
        if not e.den and 0 in e.n.d and not e.is_const():
            k = math.floor(e.n.d[0])
            if k:  # b^(y + k) = b^y b^k
                return s_fun("pow", b, e - k) * rf_ipow(b, k)
        ar = tuple(canon_rf(a) for a in args)
        return RF(Poly.v(new_atom("pow", ar, tuple(a.key() for a in ar))))
    a = canon_rf(args[0])
    if kind in ("sin", "sinh", "cos", "cosh"):
        # parity normal form: make the leading coefficient positive
        neg = a.n.d and a.n.lead() < 0
        if neg:
            a = -a
        if kind in ("sin", "sinh"):
            c = s_fun("cos" if kind == "sin" else "cosh", a)
            cc = c.n
            sq = (Poly.const(1) - cc * cc) if kind == "sin" else (cc * cc - Poly.const(1))
            v = new_atom(kind, (a,), (a.key(),), square=sq)
            r = RF(Poly.v(v))
            return -r if neg else r
        return RF(Poly.v(new_atom(kind, (a,), (a.key(),))))
    if kind == "fround":            # rounding to single precision
        NARROW[0] = True
        return RF(Poly.v(new_atom("fround", (a,), (a.key(),))))
    if kind == "trunc":
        if a.is_const():
            return RF.const(int(a.const_value()))
        if not a.den and all(v in F.ints for v in a.n.vars()) and all(Fraction(c).denominator == 1 for c in a.n.d.values()):
            return a
        v = new_atom("trunc", (a,), (a.key(),))
        F.ints.add(v)
        return RF(Poly.v(v))
    if kind == "cbrt":
        # multiplicative normal form: cbrt of prime numbers, variables and irreducible-looking polynomials only
        out = _cbrt_poly(a.n)
        for p, k in a.den.items():
            out = out / rf_ipow(_cbrt_poly(p), k)
        return out
    if kind == "exp":
        # exp(-x) = 1/exp(x)
        if a.n.d and a.n.lead() < 0:
            return s_fun("exp", -a).inv()
        at = _single_atom(a, "log")
        if at is not None:  # the argument of a logarithm is positive (an obligation of its own)
            return at
        return RF(Poly.v(new_atom("exp", (a,), (a.key(),))))
    if kind == "log":
        at = _single_atom(a, "exp")
        if at is not None:
            return at
        if len(a.den) == 1 and a.n.is_const() and a.n.const_value() == 1:
            (p, k), = a.den.items()
            at = _single_atom(RF(p), "exp")
            if at is not None and k == 1:
                return -at
    return RF(Poly.v(new_atom(kind, (a,), (a.key(),))))


def _single_atom(a, kind):
    """The argument of the atom when a is exactly one atom of that kind."""
    if not a.den and len(a.n.d) == 1:
        (m, c), = a.n.d.items()
        e = exps(m)
        if c == 1 and len(e) == 1:
            (v, k), = e.items()
            at = F.atoms.get(v)
            if k == 1 and at is not None and at[0] == kind:
                return at[1][0]
    return None


def _cbrt_atom(q):
    v = new_atom("cbrt", (RF(q),), (q.key(),))
    F.cubes[v] = q
    return RF(Poly.v(v))


def _cbrt_nat(n):
    out, p = ONE, 2
    while p * p <= n and p < 5000:
        k = 0
        while n % p == 0:
            n //= p
            k += 1
        if k:
            out = out * RF.const(p ** (k // 3)) * rf_ipow(_cbrt_atom(Poly.const(p)), k % 3)
        p += 1
    return out * _cbrt_atom(Poly.const(n)) if n > 1 else out


def _cbrt_poly(p):
    c, q = p.canon()
    c = Fraction(c)
    if c == 0:
        return ZERO
    out = _cbrt_nat(abs(c.numerator)) / _cbrt_nat(c.denominator) * RF.const(1 if c > 0 else -1)
    m = 0
    for v, k in q.mono_gcd().items():
        m |= k << (BITS * v)
        at = F.atoms.get(v)
        c1 = s_abs(_cbrt_poly(at[1][0].n)) if at is not None and at[0] == "abs" else _cbrt_atom(Poly.v(v))
        out = out * RF(Poly.v(v).pow(k // 3)) * rf_ipow(c1, k % 3)
    if m:
        q = Poly({mm - m: c2 for mm, c2 in q.d.items()})
    if q.is_const() and q.const_value() == 1:
        return out
    z = poly_root(q, 3)
    if z is not None and z[0] == 1:
        return out * RF(z[1])
    return out * _cbrt_atom(q)


def rf_ipow(b, n):
    if n < 0:
        return rf_ipow(b, -n).inv()
    r = ONE
    for _ in range(n):
        r = r * b
    return r


def subs(rf, m, cache=None):
    """Replace variables (inputs or atoms) by the values of m; atoms are rebuilt from their substituted arguments."""
    if cache is None:
        cache = {}

    def var(v):
        x = cache.get(v)
        if x is None:
            if v in m:
                x = m[v]
            elif v in F.atoms:
                kind, args = F.atoms[v]
                x = s_fun(kind, *[ev(a) for a in args])
            else:
                x = RF(Poly.v(v))
            cache[v] = x
        return x

    def pol(p):
        vs = p.vars()
        if not any(touched(v) for v in vs):
            return RF(p)
        t = ZERO
        for mm, c in p.d.items():
            x = RF.const(c)
            for v, k in exps(mm).items():
                x = x * rf_ipow(var(v), k)
            t = t + x
        return t

    tc = {}

    def touched(v):
        r = tc.get(v)
        if r is None:
            if v in m:
                r = True
            elif v in F.atoms:
                r = any(touched(w) for a in F.atoms[v][1] for w in rf_vars(a))
            else:
                r = False
            tc[v] = r
        return r

    def ev(r):
        n = pol(r.n)
        for p, k in r.den.items():
            n = n * rf_ipow(pol(p), -k)
        return n

    return ev(rf)


def rf_vars(a):
    s = a.n.vars()
    for p in a.den:
        s = s | p.vars()
    return s


# ---------------------------------------------------------------- numeric evaluation

def evaluate(rf, vals, mp, cache=None):
    """Value at vals (var index -> mpf) with mpmath; atoms computed from their arguments."""
    if cache is None:
        cache = {}

    def var(v):
        if v in vals:
            return vals[v]
        if v in cache:
            return cache[v]
        kind, args = F.atoms[v]
        a = [ev(x) for x in args]
        if kind == "sqrt":
            r = mp.sqrt(a[0]) if a[0] >= 0 else mp.nan
        elif kind == "abs":
            r = abs(a[0])
        elif kind == "cbrt":
            r = mp.cbrt(a[0]) if a[0] >= 0 else -mp.cbrt(-a[0])
        elif kind == "fround":
            import struct
            r = mp.mpf(struct.unpack("<f", struct.pack("<f", float(a[0])))[0]) if abs(a[0]) < 3e38 else mp.nan
        elif kind == "trunc":
            r = mp.mpf(int(a[0])) if not mp.isnan(a[0]) else mp.nan
        elif kind == "pow":
            r = mp.power(a[0], a[1])
        else:
            r = getattr(mp, kind)(*a)
        cache[v] = r
        return r

    def pol(p):
        t = mp.mpf(0)
        for m, c in p.d.items():
            x = mp.mpf(c.numerator) / c.denominator if type(c) is Fraction else mp.mpf(c)
            for v, k in exps(m).items():
                x = x * var(v) ** k
            t += x
        return t

    def ev(r):
        n = pol(r.n)
        for p, k in r.den.items():
            d = pol(p)
            if d == 0:
                return mp.nan
            n = n / d ** k
        return n

    return ev(rf)
