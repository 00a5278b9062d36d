"""z3 queries over the reals for path feasibility and conditional identities."""
import z3
from fractions import Fraction
from . import sym as S

stats = {"calls": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0}


def to_z3(p, env):
    terms = []
    for m, c in p.d.items():
        t = z3.RealVal(str(Fraction(c)))
        for v, k in S.exps(m).items():
            x = var(v, env)
            for _ in range(k):
                t = t * x
        terms.append(t)
    return z3.Sum(terms) if terms else z3.RealVal(0)


def var(v, env):
    x = env["vars"].get(v)
    if x is None:
        x = z3.ToReal(z3.Int(f"i{v}")) if v in S.F.ints else z3.Real(f"v{v}")
        env["vars"][v] = x
        a = S.F.atoms.get(v)
        if a is not None:
            kind, args = a
            if kind in ("sqrt", "abs") and not args[0].den:
                env["ax"].append(x >= 0)
                p = to_z3(args[0].n, env)
                env["ax"].append(x * x == p if kind == "sqrt" else z3.Or(x == p, x == -p))
            elif kind == "trunc" and not args[0].den:
                p = to_z3(args[0].n, env)
                env["ax"].append(z3.Or(z3.And(p >= 0, x <= p, p < x + 1), z3.And(p < 0, x >= p, p > x - 1)))
            elif kind == "cbrt" and not args[0].den:
                env["ax"].append(x * x * x == to_z3(args[0].n, env))
            elif kind in ("exp",):
                env["ax"].append(x > 0)
            elif kind == "cosh":
                env["ax"].append(x >= 1)
            elif kind in ("cos", "sin"):
                env["ax"].append(z3.And(x <= 1, x >= -1))
    return x


def build(pc):
    env = {"vars": {}, "ax": []}
    cs = []
    for p, signs in pc:
        e = to_z3(p, env)
        signs = frozenset(signs)
        if signs == {1}:
            cs.append(e > 0)
        elif signs == {-1}:
            cs.append(e < 0)
        elif signs == {0}:
            cs.append(e == 0)
        elif signs == {0, 1}:
            cs.append(e >= 0)
        elif signs == {-1, 0}:
            cs.append(e <= 0)
        elif signs == {-1, 1}:
            cs.append(e != 0)
    return cs, env


def linear_unsat(pc, ms):
    """Linear relaxation: every non-linear monomial is a fresh variable (non-negative when manifestly so)."""
    mono, cs = {}, []
    nonlin = []

    def lin(p):
        terms = []
        for m, c in p.d.items():
            if m == 0:
                terms.append(z3.RealVal(str(Fraction(c))))
                continue
            x = mono.get(m)
            if x is None:
                e = S.exps(m)
                one = len(e) == 1 and list(e.values()) == [1]
                v = next(iter(e))
                if one and v in S.F.ints:
                    x = z3.ToReal(z3.Int(f"i{v}"))
                else:
                    x = z3.Real(f"m{m}")
                if not one:
                    nonlin.append(m)
                mono[m] = x
                if all(k % 2 == 0 or S.nonneg_atom(w) for w, k in e.items()):
                    cs.append(x >= 0)
                a = S.F.atoms.get(v) if one else None
                if a is not None and a[0] == "abs" and not a[1][0].den:
                    q = lin(a[1][0].n)
                    cs.append(z3.Or(x == q, x == -q))
                if a is not None and a[0] == "trunc" and not a[1][0].den:
                    q = lin(a[1][0].n)
                    cs.append(z3.Or(z3.And(q >= 0, x <= q, q < x + 1), z3.And(q < 0, x >= q, q > x - 1)))
            terms.append(x * z3.RealVal(str(Fraction(c))))
        return z3.Sum(terms) if terms else z3.RealVal(0)
    for p, signs in pc:
        e = lin(p)
        cs.append(z3.Or([{1: e > 0, -1: e < 0, 0: e == 0}[k] for k in signs]))
    if not nonlin:
        return False
    s = z3.Solver()
    s.set("timeout", ms)
    s.add(*cs)
    return s.check() == z3.unsat


def sat(pc, ms=700, model=False):
    """True / False / None(unknown)."""
    import time
    if sum(len(p.d) for p, _ in pc) > 400:
        return None
    t = time.time()
    if linear_unsat(pc, ms):
        stats["calls"] += 1
        stats["unsat"] += 1
        stats["time"] += time.time() - t
        return False
    cs, env = build(pc)
    s = z3.Solver()
    s.set("timeout", ms)
    s.add(*cs)
    s.add(*env["ax"])
    r = s.check()
    stats["calls"] += 1
    stats["time"] += time.time() - t
    if r == z3.unsat:
        stats["unsat"] += 1
        return False
    if r == z3.sat:
        stats["sat"] += 1
        if model:
            m = s.model()
            out = {}
            for v, x in env["vars"].items():
                if v in S.F.atoms:
                    continue
                val = m.eval(x, model_completion=True)
                try:
                    out[v] = Fraction(val.as_fraction())
                except Exception:
                    try:
                        out[v] = Fraction(val.approx(30).as_fraction())
                    except Exception:
                        out[v] = Fraction(0)
            return out
        return True
    stats["unknown"] += 1
    return None
