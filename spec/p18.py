"""P18: the model functions give back the Euclidean parameters of the blades that were built from them."""
from spec._lib import *
from gatlver.space import SP
from fractions import Fraction as F
from itertools import combinations

P = "P18"


# polynomials over the parameters (monomial: sorted tuple of parameter numbers) and multivectors of them
def padd(a, b):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + c
        if r[m] == 0:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for k, d in b.items():
            t = tuple(sorted(m + k))
            r[t] = r.get(t, 0) + c * d
            if r[t] == 0:
                del r[t]
    return r


def K(c):
    return {(): F(c)} if c else {}


def X(k):
    return {(k,): F(1)}


def madd(*ms):
    r = {}
    for m in ms:
        for b, p in m.items():
            q = padd(r.get(b, {}), p)
            if q:
                r[b] = q
            else:
                r.pop(b, None)
    return r


def mscale(m, p):
    return {b: pmul(q, p) for b, q in m.items()}


def mop(a, b):
    r = {}
    for x, p in a.items():
        for y, q in b.items():
            if x & y:
                continue
            s = wedge_sign(x, y)
            r = madd(r, {x | y: pmul(pmul(p, q), K(s))})
    return r


def lin(m, f):
    """A linear function given on the basis blades by the oracle."""
    r = {}
    for b, p in m.items():
        for y, c in f(b).d.items():
            r = madd(r, {y: pmul(p, K(c.const_value()))})
    return r


def rf(p, r):
    out = S.ZERO
    for m, c in p.items():
        t = RF.const(c)
        for k in m:
            t = t * r[k]
        out = out + t
    return out


def mv(E, m, r):
    return E.mv({b: rf(p, r) for b, p in m.items()})


def text(p):
    return " + ".join("*".join([f"{float(c)!r}"] + [f"a[{k}]" for k in m]) for m, c in sorted(p.items())) or "0.0"


class Model:
    """Basis of the model as vectors of its space; the translation by c; Euclidean blades."""

    def __init__(self, s):
        self.s, self.n = s, SP[s].n
        self.kind = s[-1]
        self.d = d = self.n - {"c": 2, "m": 2, "h": 1}[self.kind]
        one = K(1)
        if self.kind == "c":
            self.no, self.ni = {1 << d: one}, {1 << (d + 1): one}
        elif self.kind == "m":
            self.no, self.ni = {1 << d: K(F(-1, 2)), 1 << (d + 1): K(F(1, 2))}, {1 << d: one, 1 << (d + 1): one}
        else:
            self.no, self.ni = {1 << d: one}, None
        self.c = [X(k) for k in range(d)]

    def point(self):
        p = madd(self.no, {1 << k: self.c[k] for k in range(self.d)})
        if self.ni is not None:
            q = {}
            for x in self.c:
                q = padd(q, pmul(x, x))
            p = madd(p, mscale(self.ni, pmul(q, K(F(1, 2)))))
        return p

    def x(self):
        return {1 << k: self.c[k] for k in range(self.d)}

    def euc(self, k, base, move=False):
        """A Euclidean k-blade with free coefficients (every k-vector is one in up to three dimensions), translated when asked for."""
        r, j = {}, base
        for cb in combinations(range(self.d), k):
            b = {0: X(j)}
            j += 1
            for i in cb:
                v = {1 << i: K(1)}
                if move:
                    v = madd(v, mscale(self.ni, self.c[i]))
                b = mop(b, v)
            r = madd(r, b)
        return r, j - base

    def nrm(self, e):
        q = {}
        for p in e.values():
            q = padd(q, pmul(p, p))
        return q

    def dual(self, m):
        from gatlver.oracle import MV as M
        return lin(m, lambda b: M(SP[self.s].o, {b: S.ONE}).dual())

    def fill(self, m, name):
        g = bin(next(iter(m))).count("1")
        assert all(bin(b).count("1") == g for b in m)
        z = "".join(f"z_{name}[{b}] = {text(p)}; " for b, p in m.items())
        return f"double z_{name}[{1 << self.n}] = {{}}; {z} auto const {name} = vf_fill<ga::full_multivector_t<double, {self.n}, {g}, {g}>>(z_{name});"


def blades(d, kinds=None):
    return [k for k in range(d + 1) if d <= 3 or k in (0, 1, d - 1, d)]


for s in ("ga1c", "ga2c", "ga3c", "ga1m", "ga2m", "ga3m"):
    M = Model(s)
    d = M.d
    P0 = M.point()
    for k in blades(d):
        E0, ne = M.euc(k, d)
        E1, _ = M.euc(k, d, move=True)
        par = Operand("u", None, None, real=d + ne + 1)
        rr = X(d + ne)
        nz = lambda E, E0=E0, M=M: [(rf(M.nrm(E0), E.r["u"]), {1})]
        eni = mop(E0, M.ni)
        g = lambda m: (lambda E: mv(E, m, E.r["u"]))
        # flats p ^ E ^ ni
        flat = mop(mop(P0, E0), M.ni)

        def loc(E, E0=E0, M=M):
            x, e = mv(E, M.x(), E.r["u"]), mv(E, E0, E.r["u"])
            x = x.op(e).gp(e.versor_inverse())
            return mv(E, M.no, []) + x + mv(E, M.ni, []).scale(x.sprod(x))
        Case(P, f"flat{k}_{s}", s, [par], [("primal_flat_direction(f)", g(eni)), ("1.0 * primal_flat_location(f)", loc), ("dual_flat_direction(h)", g(eni)), ("1.0 * dual_flat_location(h)", loc)],
             pre=M.fill(flat, "f") + M.fill(M.dual(flat), "h"), requires=nz, weight=15 if s in ("ga3c", "ga3m") else 3)
        # rounds T_p((no + rr ni / 2) ^ E)
        rnd = mop(madd(P0, mscale(M.ni, pmul(rr, K(F(1, 2))))), E1)
        size = lambda E, rr=rr: E.s(rf(rr, E.r["u"]))
        RO = [("primal_round_direction(f)", g(eni)), ("primal_round_location(f)", g(P0)), ("primal_round_size_sqr(f)", size),
              ("dual_round_direction(h)", g(eni)), ("dual_round_location(h)", g(P0)), ("dual_round_size_sqr(h)", size)]
        if s == "ga3m":
            for j, ro in enumerate(RO):
                # the location functions of the Minkowski model take long to compile in 3-D
                Case(P, f"round{k}_{j}_{s}", s, [par], [ro], tier="thorough" if k in (1, 2) and j in (1, 4) else "quick", pre=M.fill(rnd, "f") if j < 3 else M.fill(M.dual(rnd), "h"), requires=nz, weight=25 if k in (1, 2) and j in (2, 5) else 3)
        else:
            Case(P, f"round{k}_{s}", s, [par], RO, pre=M.fill(rnd, "f") + M.fill(M.dual(rnd), "h"), requires=nz, weight=30 if s == "ga3c" else 4)
        # tangents p ^ T_p(E)
        tan = mop(P0, E1)
        Case(P, f"tangent{k}_{s}", s, [par], [("primal_tangent_direction(f)", g(eni)), ("primal_tangent_location(f)", g(P0)),
                                              ("dual_tangent_direction(h)", g(eni)), ("dual_tangent_location(h)", g(P0))],
             pre=M.fill(tan, "f") + M.fill(M.dual(tan), "h"), requires=nz, weight=15 if s in ("ga3c", "ga3m") else 3)
for s in ("ga1h", "ga2h", "ga3h", "ga4h"):
    M = Model(s)
    d = M.d
    P0 = M.point()
    for k in range(d + 1):
        if d == 4 and k == 2:
            continue
        E0, ne = M.euc(k, d)
        t0 = d + ne
        par = Operand("u", None, None, real=d + ne + d)
        nz = lambda E, E0=E0, M=M: [(rf(M.nrm(E0), E.r["u"]), {1})]
        g = lambda m: (lambda E: mv(E, m, E.r["u"]))
        flat = mop(P0, E0)
        mom = mop(M.x(), E0)
        T = {1 << i: X(t0 + i) for i in range(d)}

        def sup(E, E0=E0, mom=mom):
            e = mv(E, E0, E.r["u"])
            return mv(E, mom, E.r["u"]).gp(e.versor_inverse())
        Case(P, f"flat{k}_{s}", s, [par], [("flat_direction(f)", g(E0)), ("flat_moment(f)", g(mom)), ("flat_support_vector(f)", sup), ("flat_unit_support_point(f)", lambda E, sup=sup, M=M: sup(E) + mv(E, M.no, [])),
                                           ("translate(t, f)", g(mop(madd(P0, T), E0)))],
             pre=M.fill(flat, "f") + M.fill(T, "t"), requires=nz, weight=2)
for s in ("ga1e", "ga2e", "ga3e", "ga4e"):
    n = SP[s].n
    for a, b in ((1, 1), (1, 2), (2, 1), (2, 2), (1, n - 1), (1, n), (0, 1), (2, n), (1, 0), (0, 0), (n, n)):
        if max(a, b) > n or n == 4 and b == 2:
            continue
        if f"proj_{s}_{a}{b}" in [c.name for c in __import__("gatlver.case", fromlist=["ALL"]).ALL if c.prop == P]:
            continue
        pr = lambda E: E.x.lcont(E.y.versor_inverse()).lcont(E.y)
        Case(P, f"proj_{s}_{a}{b}", s, [Full("x", a, a), Full("y", b, b)], [("project(x, y)", pr), ("reject(x, y)", lambda E, pr=pr: E.x - pr(E)), ("project(x, y) + reject(x, y)", lambda E: E.x)],
             requires=lambda E: [(E.y.rnorm_sqr(), {1})], weight=1)


# embeddings of points and vectors
def emb(kind):
    def pt(E, x, one=True):
        d = len(x)
        m = E.s(0)
        for k, v in enumerate(x):
            m = m + E.e(k + 1) * v
        if not one or kind in "ep":
            return m
        q = S.ZERO
        for v in x:
            q = q + RF.const(1) * v * v
        if kind == "h":
            return m + E.e(d + 1)
        if kind == "c":
            return m + E.e(d + 1) + E.e(d + 2).scale(q * F(1, 2))
        return m + E.e(d + 1).scale((q - 1) * F(1, 2)) + E.e(d + 2).scale((q + 1) * F(1, 2))
    return pt


for s in ("ga1e", "ga2e", "ga3e", "ga4e", "ga5e", "ga1h", "ga2h", "ga3h", "ga4h", "ga1m", "ga2m", "ga3m", "ga1c", "ga2c", "ga3c", "ga1p", "ga2p", "ga3p", "ga4p"):
    kind = s[-1]
    d = SP[s].n - {"c": 2, "m": 2, "h": 1, "p": 1, "e": 0}[kind]
    def mk(pt, cs, d):
        mx = lambda E: [[E.r["u"][k], E.q["u"][k], cs[k]][k % 3] for k in range(d)]
        mx2 = lambda E: [[cs[k], E.r["u"][k], E.q["u"][k]][k % 3] for k in range(d)]
        return mx, mx2, (lambda o: lambda E: pt(E, E.r["u"], o)), (lambda o: lambda E: pt(E, E.q["u"], o)), (lambda o: lambda E: pt(E, cs, o)), (lambda o: lambda E: pt(E, mx(E), o)), (lambda o: lambda E: pt(E, mx2(E), o))
    pt = emb(kind)
    ar = ", ".join(f"a[{k}]" for k in range(d))
    aq = ", ".join(f"q[{k}]" for k in range(d))
    cs = [(-1) ** k * (k + 2) for k in range(d)]
    ac = ", ".join(f"c<{x}>" for x in cs)
    mx, mx2, fr, fq, fc, fm, fm2 = mk(pt, cs, d)
    am = ", ".join([f"a[{k}]", f"q[{k}]", f"c<{cs[k]}>"][k % 3] for k in range(d))
    am2 = ", ".join([f"c<{cs[k]}>", f"a[{k}]", f"q[{k}]"][k % 3] for k in range(d))
    sc = ", ".join(f"scalar(a[{k}])" for k in range(d))
    outs = []
    for fn, one in (("euclidean_vector", False),) + ((("point", True),) if kind in "hcm" else ()):
        outs += [(f"1.0 * {fn}({ar})", fr(one)), (f"{fn}(a, a + {d})", fr(one)), (f"1.0 * {fn}({aq})", fq(one)),
                 (f"1.0 * {fn}({ac})", fc(one)), (f"1.0 * {fn}({am})", fm(one)), (f"1.0 * {fn}({am2})", fm2(one)),
                 (f"1.0 * {fn}({sc})", fr(one)), (f"{fn}({ar})", fr(one)),
                 ("!{ std::vector<double> w(a, a + %d); vf_put(@, %s(w.begin(), w.end())); }" % (d, fn), fr(one))][:8]
    Case(P, f"embed_{s}", s, [Operand("u", None, None, real=d, intg=d)], outs, weight=.6)
