"""Decides one contract: every path of the compiled code against the specification."""
import time, random, signal
from fractions import Fraction
import mpmath
from . import sym as S
from . import smt
from .sym import RF, Poly
from .exec import Ctx, Exec, Obj, Ptr, Outcome, Fault, Infeasible, Undef, UNDEF, FV
from .ir import Unsupported
from .case import Env, SpecOutcome
from .oracle import MV
from . import text as T

MP = mpmath.mp.clone()
MP.prec = 200
MAXPATHS = 3000
OUT_CELLS = 4000


class Budget(Exception):
    pass


def combos(doms):
    if not doms:
        yield ()
        return
    for x in doms[0]:
        for r in combos(doms[1:]):
            yield (x,) + r


class NumCtx(Ctx):
    """Specification run on concrete numbers: decisions are evaluated."""

    def __init__(self):
        super().__init__([])
        self.close = False

    def decide(self, rf, signs, want_fork=True):
        v = S.evaluate(rf, {}, MP)
        if MP.isnan(v):
            raise ZeroDivisionError
        s = 0 if abs(v) < MP.mpf(10) ** -40 else (1 if v > 0 else -1)
        if 0 < abs(v) < MP.mpf(10) ** -11:
            self.close = True
        return s in signs

    def add(self, rf, signs):
        if not self.decide(rf, signs):
            raise Infeasible()

    def choose(self, n):
        return 0


class SpanD(dict):
    """Components up to a common non-zero factor; the pivot is a component that is not zero on the path."""
    pivot = None


def span(E, x):
    """A specification by the subspace: any non-zero multiple of x."""
    d = SpanD({b: v for b, v in x.d.items() if not v.is_zero()})
    for b in sorted(d):
        if not E.zero(d[b]):
            d.pivot = b
            return d
    raise ZeroDivisionError


def nonzero_rest(ctx, g, depth=0):
    """The factors of the numerator of g that are not known to be non-zero on the path."""
    left = []
    q = g.n
    cand = [p for p, sg in ctx.signs.items() if 0 not in sg and not p.is_const()]
    cand += list(g.den)
    for v in q.vars():
        at = S.F.atoms.get(v)
        if at is not None:
            for a in at[1]:
                if isinstance(a, S.RF):
                    cand += [p for p in list(a.den) + [a.n.canon()[1]] if not p.is_const()]
    m = 0
    for v, k in q.mono_gcd().items():
        m |= k << (S.BITS * v)
        pv = S.Poly.v(v)
        at = S.F.atoms.get(v)
        if 0 not in ctx.allowed(pv):
            continue
        if at is not None and at[0] in ("abs", "sqrt", "cbrt") and depth < 4:
            left += nonzero_rest(ctx, at[1][0], depth + 1)
        else:
            left.append(pv)
    if m:
        q = S.Poly({mm - m: c for mm, c in q.d.items()})
    seen = set()
    for p in sorted(set(cand), key=lambda p: -len(p.d)):
        if q.is_const():
            break
        ok = 0 not in ctx.allowed(p)
        if p in g.den:
            ok = True
        while True:
            d = S.divide_exact(q, p) if len(p.d) > 1 else None
            if d is None:
                break
            q = d
            if not ok and p not in seen:
                seen.add(p)
                left.append(p)
    if not q.is_const():
        q = q.canon()[1]
        if 0 not in ctx.allowed(q):
            return left
        for f in factors(q):
            if 0 not in ctx.allowed(f):
                continue
            left.append(f)
    return left


def factors(q):
    """The irreducible factors of a polynomial of moderate size."""
    if len(q.d) > 300:
        return [q]
    import sympy
    vs = sorted(q.vars())
    if len(vs) > 10:
        return [q]
    sy = sympy.symbols([f"v{v}" for v in vs])
    d = {}
    for mm, c in q.d.items():
        d[tuple((mm >> (S.BITS * v)) & S.MASK for v in vs)] = sympy.Rational(c.numerator, c.denominator)
    _c, fl = sympy.factor_list(sympy.Poly.from_dict(d, *sy))
    out = []
    prod = S.Poly.const(Fraction(int(_c.p), int(_c.q)))
    for f, _k in fl:
        r = {}
        for mon, c in f.terms():
            mm = 0
            for v, k in zip(vs, mon):
                mm |= int(k) << (S.BITS * v)
            r[mm] = Fraction(int(c.p), int(c.q))
        r = S.Poly({k: S._norm(c) for k, c in r.items()})
        for _ in range(_k):
            prod = prod.mul_raw(r)
        out.append(r.canon()[1])
    return out if (prod - q).is_zero() else [q]


def to_dict(x):
    if isinstance(x, SpanD):
        return x
    if isinstance(x, MV):
        return x.d
    if isinstance(x, dict):
        return {b: MV.lift(v) for b, v in x.items()}
    if isinstance(x, bool):
        return {0: RF.const(int(x))}
    return {0: MV.lift(x)}


def spec_run(case, E):
    """Expected sections, or raises SpecOutcome."""
    if case.expect is not None:
        r = case.expect(E)
        if r:
            raise SpecOutcome(*r) if isinstance(r, tuple) else SpecOutcome(r)
    return [to_dict(fn(E)) for _, fn in case.outs]


def eq_subs(ctx):
    """Substitutions var -> RF that make the equality constraints of the path identities (where they are linear)."""
    out = []
    m = {}
    for p, s in list(ctx.signs.items()):
        if s != {0}:
            continue
        q = S.subs(RF(p), m).n if m else p
        if q.is_zero():
            continue
        best = None
        for v in sorted(q.vars()):
            if v in S.F.atoms:
                continue
            one = 1 << (S.BITS * v)
            if any(((mm >> (S.BITS * v)) & S.MASK) and mm != one for mm in q.d):
                continue
            # no atom of q may depend on v
            if any(dep(w, v) for w in q.vars() if w in S.F.atoms):
                continue
            if one in q.d:
                best = (v, one)
                break
        if best is None and len(q.d) <= 12:
            # linear in a variable, with a coefficient that is not zero on the path
            for v in sorted(q.vars()):
                if v in S.F.atoms or v in m or any(dep(w, v) for w in q.vars() if w in S.F.atoms):
                    continue
                one = 1 << (S.BITS * v)
                ks = [(mm >> (S.BITS * v)) & S.MASK for mm in q.d]
                if max(ks) != 1:
                    continue
                c = Poly({mm - one: cc for mm, cc in q.d.items() if (mm >> (S.BITS * v)) & S.MASK})
                if c.is_const() or 0 in ctx.allowed(c.canon()[1]):
                    continue
                rest = Poly({mm: cc for mm, cc in q.d.items() if not (mm >> (S.BITS * v)) & S.MASK})
                val = -(RF(rest) / RF(c))
                m = compose(m, v, val)
                out.append((v, val))
                break
            else:
                v = None
            if v is not None:
                continue
        if best is None:
            # a single power of a variable
            if len(q.d) == 1:
                (mm, _), = q.d.items()
                e = S.exps(mm)
                if len(e) == 1:
                    (v, k), = e.items()
                    if v not in S.F.atoms:
                        m = compose(m, v, S.ZERO)
                        out.append((v, S.ZERO))
            else:
                # a sum of even powers with coefficients of one sign vanishes only when every term does
                sg = q.manifest_sign()
                if sg in ("0+", "-0"):
                    for mm in q.d:
                        e = S.exps(mm)
                        if len(e) == 1:
                            (v, k), = e.items()
                            if v not in S.F.atoms and v not in m:
                                m = compose(m, v, S.ZERO)
                                out.append((v, S.ZERO))
            continue
        v, one = best
        c = q.d[one]
        rest = Poly({mm: cc for mm, cc in q.d.items() if mm != one})
        val = RF(rest.scale(Fraction(-1) / c))
        m = compose(m, v, val)
        out.append((v, val))
    return m


def compose(m, v, val):
    r = {k: S.subs(x, {v: val}) for k, x in m.items()}
    r[v] = val
    return r


def dep(a, v):
    for x in S.F.atoms[a][1]:
        for w in S.rf_vars(x):
            if w == v or (w in S.F.atoms and dep(w, v)):
                return True
    return False


def sign_subs(ctx, rfs):
    """abs atoms whose argument has a known sign on the path."""
    m = {}
    for rf in rfs:
        for v in S.rf_vars(rf):
            a = S.F.atoms.get(v)
            if a is not None and a[0] == "abs":
                c, p = a[1][0].n.canon()
                s = ctx.allowed(p)
                if c < 0:
                    s = {-x for x in s}
                if s <= {0, 1}:
                    m[v] = a[1][0]
                elif s <= {0, -1}:
                    m[v] = -a[1][0]
    return m


class Sampler:
    def __init__(self, case, ctx, rng, varmap, intvars):
        self.case, self.ctx, self.rng = case, ctx, rng
        self.vars = varmap            # slot name -> var index
        self.intvars = intvars
        self.eq = None

    def points(self, tries=400, want=6):
        """Rational assignments (var -> Fraction) that satisfy the path condition."""
        m = eq_subs(self.ctx)
        got = 0
        for t in range(tries):
            if got >= want:
                return
            big = t % 3
            vals = {}
            for v in self.vars:
                if v in self.intvars:
                    vals[v] = Fraction(self.rng.randint(-9, 9))
                elif big == 0:
                    vals[v] = Fraction(self.rng.randint(-24, 24), 8)
                elif big == 1:
                    vals[v] = Fraction(self.rng.randint(-40, 40), 4)
                else:
                    vals[v] = Fraction(self.rng.randint(-16, 16), 16)
            if not self._fix(m, vals):
                continue
            if self.ok(vals):
                got += 1
                yield vals
        if got == 0:
            z = smt.sat(self.ctx.pc, 5000, model=True)
            if isinstance(z, dict):
                vals = {v: z.get(v, Fraction(1)) for v in self.vars}
                # round to doubles; keep exact when possible
                if all(v not in self.intvars or x.denominator == 1 for v, x in vals.items()):
                    vals = {v: Fraction(float(x)) for v, x in vals.items()}
                    if self.ok(vals, tol=True):
                        yield vals

    def _fix(self, m, vals):
        for v, rf in m.items():
            x = S.evaluate(rf, {k: MP.mpf(c.numerator) / c.denominator for k, c in vals.items()}, MP)
            if MP.isnan(x) or MP.isinf(x):
                return False
            f = Fraction(float(x))
            if abs(MP.mpf(f.numerator) / f.denominator - x) > MP.mpf(10) ** -40:
                return False
            if v in self.intvars and f.denominator != 1:
                return False
            vals[v] = f
        return True

    def ok(self, vals, tol=False):
        mv = {k: MP.mpf(c.numerator) / c.denominator for k, c in vals.items()}
        cache = {}
        for p, signs in self.ctx.signs.items():
            x = S.evaluate(RF(p), mv, MP, cache)
            if MP.isnan(x):
                return False
            s = 0 if abs(x) < MP.mpf(10) ** (-12 if tol else -40) else (1 if x > 0 else -1)
            if s not in signs:
                return False
        for n, sg in self.ctx.pc:
            pass
        return True


class Result:
    def __init__(self, case):
        self.case = case.name
        self.obligations = 0
        self.discharged = 0
        self.by = {"normal-form": 0, "path-substitution": 0, "z3": 0}
        self.paths = 0
        self.returned = 0
        self.failed = []       # refuted: dict(obligation, point, detail)
        self.undischarged = []
        self.faults = []
        self.unsupported = None
        self.solver_time = 0.0
        self.solver_calls = 0
        self.witness = 0
        self.vacuity = None
        self.time = 0.0
        self.combos = 0
        self.spec_undefined = 0
        self.sample = None


def run_code(case, mod, sym, ctx, reals, idx, ints):
    ex = Exec(mod, ctx)
    ex.single = any("float" in t for t in [case.pre, case.glob] + [(o.cxx or "") + str(getattr(o, "full", "")) for o in case.ops] + [o[0] for o in case.outs])
    A = Obj("a", 8 * max(1, case.nreal))
    for s, v in reals.items():
        A.cells[8 * s] = (8, FV(v))
    A.ro = True
    N = Obj("n", 8 * max(1, case.nidx))
    for k, v in enumerate(idx):
        N.cells[8 * k] = (8, v & ((1 << 64) - 1) if isinstance(v, int) else v)
    N.ro = True
    Q = Obj("q", 8 * max(1, case.nint))
    for s, v in ints.items():
        Q.cells[8 * s] = (8, v)
    Q.ro = True
    O = Obj("o", 8 + 24 * OUT_CELLS)
    O.cells[0] = (8, 0)
    if getattr(case, "textual", False):
        for c in mod.ctors():
            ex.call(c, [])
    ex.call("@" + sym, [Ptr(A, 0), Ptr(N, 0), Ptr(Q, 0), Ptr(O, 0)])
    n = O.cells[0][1]
    if not isinstance(n, int):
        raise Unsupported("symbolic number of results")
    secs = [dict() for _ in case.outs]
    for k in range(n):
        s = O.cells[8 + 24 * k][1]
        b = O.cells[16 + 24 * k][1]
        e = O.cells.get(24 + 24 * k)
        v = e[1] if e else UNDEF
        if isinstance(v, FV):
            v = v.v
        if isinstance(v, int):
            v = S.ZERO if v == 0 else None
        if b is UNDEF or s is UNDEF:
            raise Fault("uninitialised basis blade emitted", "")
        if not isinstance(b, int) or not isinstance(s, int):
            raise Unsupported("symbolic basis blade in the result")
        if v is UNDEF:
            raise Fault("uninitialised coefficient in the result", f"section {s} blade {b:#x}")
        if not isinstance(v, RF):
            raise Unsupported(f"result value {v!r}")
        d = secs[s]
        d[b] = d[b] + v if b in d else v
    for s, p in ex.texts:
        p = [x.v if isinstance(x, FV) else x for x in p]
        try:
            m = T.meaning(p, case.space.o, case.names)
        except T.TextError as e:
            raise Fault("text that is no expression", f"{e} in " + "".join(x if isinstance(x, str) else "{number}" for x in p)[:200])
        for b, v in m.d.items():
            secs[s][b] = secs[s][b] + v if b in secs[s] else v
    return secs, ex


def verify(case, mod, sym, rng, budget=60.0, log=None):
    R = Result(case)
    t0, c0 = time.time(), time.process_time()
    doms = case.dom or case.idxdom
    for idx in combos(doms):
        R.combos += 1
        one_combo(case, mod, sym, idx, rng, R, c0 + budget)
        if len(R.failed) + len(R.faults) >= 12:
            break
    R.time = time.time() - t0
    return R


def one_combo(case, mod, sym, idx, rng, R, deadline):
    S.reset()
    reals = {s: S.new_var(nm) for s, nm in case.reals}
    ints = {s: S.new_var(nm, True) for s, nm in case.ints}
    varof = {}
    for d in (reals, ints):
        for s, rf in d.items():
            (m, _), = rf.n.d.items()
            varof[list(S.exps(m))[0]] = (d is ints, s)
    intvars = {v for v, (i, _) in varof.items() if i}
    work = [[]]
    npaths = 0
    while work:
        if time.process_time() > deadline:
            raise Budget("time budget of the case exceeded")
        prefix = work.pop()
        npaths += 1
        if npaths > MAXPATHS:
            raise Unsupported("path limit")
        ctx = Ctx(prefix)
        tag = f"{case.name}{list(idx) if idx else ''}/path{npaths}"
        S.DIV_LOG = S.SQRT_LOG = None
        try:
            E = Env(case, ctx, reals, idx, ints)
            if case.requires:
                for c in case.requires(E):
                    ctx.add(*c)
            got = want = None
            kind = fault = None
            try:
                got, ex = run_code(case, mod, sym, ctx, reals, idx, ints)
            except Outcome as o:
                kind = o
            except Fault as f:
                fault = f
            S.DIV_LOG, S.SQRT_LOG = [], []
            swant = None
            try:
                try:
                    want = spec_run(case, E)
                except SpecOutcome as o:
                    swant = o
                except ZeroDivisionError:
                    R.spec_undefined += 1
                    continue
            finally:
                dlog, slog = S.DIV_LOG, S.SQRT_LOG
                S.DIV_LOG = S.SQRT_LOG = None
            R.paths += 1
            smp = Sampler(case, ctx, rng, varof, intvars)

            def point():
                for p in smp.points(want=1):
                    return p
                return None

            def wit(p):
                return None if p is None else {"idx": list(idx), "vals": {f"{'q' if varof[v][0] else 'a'}{varof[v][1]}": str(x) for v, x in p.items()}}

            if fault is not None:
                R.obligations += 1
                p = point()
                R.faults.append({"obligation": tag + "/defined-behaviour", "detail": f"{fault}", "point": wit(p)})
                continue
            if kind is not None or swant is not None:
                R.obligations += 1
                if kind is not None and swant is not None and outcome_match(kind, swant):
                    R.discharged += 1
                    R.by["normal-form"] += 1
                    continue
                p = point()
                exp = f"{swant.kind} {swant.info}" if swant is not None else "a result"
                act = f"{kind.kind}: {kind.info}" if kind is not None else "a result"
                if p is None:
                    R.undischarged.append({"obligation": tag + "/outcome", "detail": f"expected {exp}, got {act}; no point on the path found"})
                else:
                    R.failed.append({"obligation": tag + "/outcome", "detail": f"expected {exp}, got {act}", "point": wit(p)})
                continue
            R.returned += 1
            # no undefined behaviour was met on this path: one obligation
            R.obligations += 1
            R.discharged += 1
            R.by["normal-form"] += 1
            need = []
            nonzero = []
            for s, (g, w) in enumerate(zip(got, want)):
                if isinstance(w, SpanD):
                    gp, wp = g.get(w.pivot, S.ZERO), w[w.pivot]
                    nonzero.append((s, w.pivot, gp))
                    for b in sorted(set(g) | set(w)):
                        if b != w.pivot:
                            need.append((s, b, g.get(b, S.ZERO) * wp, w.get(b, S.ZERO) * gp))
                    continue
                for b in sorted(set(g) | set(w)):
                    need.append((s, b, g.get(b, S.ZERO), w.get(b, S.ZERO)))
            first = True
            esub = None
            for s, b, g in nonzero:
                R.obligations += 1
                g1 = g
                try:
                    m = eq_subs(ctx)
                    g1 = S.subs(g, m) if m else g
                except ZeroDivisionError:
                    pass
                how = None
                if not g1.is_zero():
                    left = nonzero_rest(ctx, g1)
                    how = "normal-form" if not left else "z3"
                    for c in left:
                        if len(c.d) > 250:
                            how = None
                            break
                        t = time.time()
                        v = smt.sat(ctx.pc + [(c, frozenset({0}))], 2500)
                        R.solver_calls += 1
                        R.solver_time += time.time() - t
                        if v is not False:
                            how = None
                            break
                if how:
                    R.discharged += 1
                    R.by[how] += 1
                    continue
                hit = None
                for p in smp.points(want=8):
                    mvv = {k: MP.mpf(c.numerator) / c.denominator for k, c in p.items()}
                    x = S.evaluate(g, mvv, MP, {})
                    if MP.isnan(x) or abs(x) < MP.mpf(10) ** -30:
                        hit = p
                        break
                ob = f"{tag}/out{s}[{b:#b}]/nonzero"
                if hit:
                    R.failed.append({"obligation": ob, "detail": "the component vanishes", "symbolic": g.show()[:300], "point": wit(hit)})
                else:
                    R.undischarged.append({"obligation": ob, "detail": f"not decided to be non-zero: {g.show()[:300]}"})
            for s, b, g, w in need:
                R.obligations += 1
                d = g - w
                if d.is_zero():
                    R.discharged += 1
                    R.by["normal-form"] += 1
                    continue
                if time.process_time() > deadline:
                    raise Budget("time budget of the case exceeded")
                how = None
                if esub is None:
                    esub = eq_subs(ctx)
                m = dict(sign_subs(ctx, [d]))
                try:
                    d2 = S.subs(d, m) if m else d
                    d2 = S.subs(d2, esub) if esub else d2
                    m = sign_subs(ctx, [d2])
                    if m:
                        d2 = S.subs(d2, m)
                    if d2.is_zero():
                        how = "path-substitution"
                    elif not d2.n.is_const() and len(d2.n.d) < 120 and ctx.pc:
                        t = time.time()
                        c, q = d2.n.canon()
                        r = smt.sat(ctx.pc + [(q, frozenset({-1, 1}))], 2500)
                        R.solver_calls += 1
                        R.solver_time += time.time() - t
                        if r is False:
                            how = "z3"
                except ZeroDivisionError:
                    pass
                if how:
                    R.discharged += 1
                    R.by[how] += 1
                    continue
                hit = None
                npts = 0
                for p in smp.points(want=8):
                    npts += 1
                    mvv = {k: MP.mpf(c.numerator) / c.denominator for k, c in p.items()}
                    cache = {}
                    x = S.evaluate(g, mvv, MP, cache)
                    y = S.evaluate(w, mvv, MP, cache)
                    if MP.isnan(y):
                        continue
                    if MP.isnan(x) or abs(x - y) > MP.mpf(10) ** -9 * (1 + abs(y)):
                        hit = (p, x, y)
                        break
                ob = f"{tag}/out{s}[{b:#b}]"
                if hit:
                    R.failed.append({"obligation": ob, "detail": f"computed {MP.nstr(hit[1], 12)}, specified {MP.nstr(hit[2], 12)}",
                                     "symbolic": f"computed {g.show()[:300]} | specified {w.show()[:300]}", "point": wit(hit[0])})
                else:
                    R.undischarged.append({"obligation": ob, "detail": f"not decided ({npts} sample points agree): difference {d.show()[:300]}"})
                if len(R.failed) >= 12:
                    break
            # divisions and square roots of the code are defined wherever the specification is
            den_obligations(case, ctx, R, tag, dlog, slog, smp, wit)
            if R.witness < 3:
                p = point()
                if p is not None:
                    R.witness += 1
                    if R.sample is None and need:
                        s, b, g, w = need[0]
                        R.sample = {"contract": case.name, "path": tag, "component": f"section {s} blade {b:#b}", "computed": g.show()[:160],
                                    "specified": w.show()[:160]}
            if R.vacuity is None and need:
                # a perturbed postcondition must be refuted
                s, b, g, w = need[len(need) // 2]
                d = g - (w + 1)
                R.vacuity = not d.is_zero()
            R.solver_time += ctx.solver_time
            R.solver_calls += ctx.solver_calls
        except Infeasible:
            pass
        finally:
            S.DIV_LOG = S.SQRT_LOG = None
            for a in ctx.alts:
                work.append(a)


def outcome_match(kind, swant):
    if swant.kind == "any":
        return True
    if swant.kind == "fail":
        return kind.kind in ("assert", "throw", "abort")
    if kind.kind != swant.kind:
        return False
    return not swant.info or swant.info in kind.info


def den_obligations(case, ctx, R, tag, dlog, slog, smp, wit):
    seen = set()
    dl = None
    for kind, items in (("division", ctx.denoms), ("sqrt", ctx.sqrt_args)):
        for it in items:
            if kind == "division":
                n = it.n
                sg = {0}
            else:
                n = ctx.sign_poly(it[1])
                sg = {-1}
            c, p = n.canon()
            if c < 0 and kind != "division":
                sg = {-x for x in sg}
            if (kind, p) in seen or p.is_const():
                continue
            seen.add((kind, p))
            R.obligations += 1
            al = ctx.allowed(p)
            if not (al & sg):
                R.discharged += 1
                R.by["normal-form"] += 1
                continue
            ok = False
            if kind == "division":
                if dl is None:
                    dl = {q.canon()[1] for q in dlog}
                ok = p in dl or any(len(q.d) <= 400 and S.divide_exact(q, p) is not None for q in dl)
                if not ok:
                    ok = zero_implies_zero(p, dl, ctx)
            else:
                ok = any(ctx.sign_poly(q).canon() == (c, p) or (c > 0 and ctx.sign_poly(q).canon()[1] == p) for q in slog)
            if ok:
                R.discharged += 1
                R.by["normal-form"] += 1
                continue
            if kind == "division":
                p1 = S.RF(p)
                try:
                    m = eq_subs(ctx)
                    p1 = S.subs(p1, m) if m else p1
                except ZeroDivisionError:
                    pass
                rest = nonzero_rest(ctx, p1) if not p1.is_zero() else [p]
                if not rest:
                    R.discharged += 1
                    R.by["normal-form"] += 1
                    continue
                if len(rest) > 1 or len(rest[0].d) < len(p.d):
                    t = time.time()
                    ok = all(len(q.d) <= 250 and smt.sat(ctx.pc + [(q, frozenset({0}))], 2500) is False for q in rest)
                    R.solver_calls += len(rest)
                    R.solver_time += time.time() - t
                    if ok:
                        R.discharged += 1
                        R.by["z3"] += 1
                        continue
            r = smt.sat(ctx.pc + [(p, frozenset(sg))], 2500, model=True)
            R.solver_calls += 1
            if r is False:
                R.discharged += 1
                R.by["z3"] += 1
                continue
            pt = None
            if isinstance(r, dict):
                pt = {v: Fraction(float(r.get(v, Fraction(1)))) for v in smp.vars}
            R.undischarged.append({"obligation": f"{tag}/{kind}-defined", "detail": f"{kind} argument {p.show()[:200]} not shown to be " +
                                   ("non-zero" if kind == "division" else "non-negative"), "point": wit(pt) if pt else None})


def zero_implies_zero(p, dl, ctx):
    """p is a product of atoms/variables each of which the specification divides by."""
    g = p.mono_gcd()
    if not g:
        # abs/sqrt atoms: p = sqrt(q): the specification divides by q
        return False
    m = 0
    for v, k in g.items():
        m |= k << (S.BITS * v)
        pv = Poly.v(v)
        if pv in dl:
            continue
        if v in S.F.atoms and S.F.atoms[v][0] in ("sqrt", "abs"):
            q = S.F.atoms[v][1][0].n.canon()[1]
            if q in dl or 0 not in ctx.allowed(q) or any(S.divide_exact(d, q) is not None for d in dl if len(d.d) <= 400):
                continue
        if v in S.F.atoms and S.F.atoms[v][0] in ("exp", "cosh"):
            continue
        if 0 not in ctx.allowed(pv):
            continue
        return False
    rest = Poly({mm - m: c for mm, c in p.d.items()})
    return rest.is_const() or rest.canon()[1] in dl or 0 not in ctx.allowed(rest.canon()[1])
