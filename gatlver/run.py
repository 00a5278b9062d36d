"""Driver: compiles the contracts' harness against /repo, verifies every case, replays refutations, writes the evidence."""
import os, sys, json, time, random, subprocess, tempfile, shutil, glob, importlib.util, hashlib, re, signal, traceback
from multiprocessing import Pool, Value
from fractions import Fraction

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
INC = os.path.join(REPO, "cpp", "include")
HARN = os.path.join(VERIF, "harness")
CLANG = [shutil.which("clang++-18") or "clang++", "-std=c++17", "-w", "-Wno-c++11-narrowing", "-DGATL_VERIFICATION", "-include", os.path.join(HARN, "prelude.hpp"),
         "-O1", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-S", "-emit-llvm", "-ftemplate-depth=4000",
         "-Xclang", "-disable-llvm-passes", "-fconstexpr-steps=100000000", "-I" + INC, "-I" + HARN]
OPT = [CLANG[0], "-O1", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-S", "-emit-llvm", "-x", "ir"]
GXX = [os.environ.get("VERIF_GXX", "g++-11"), "-std=c++17", "-w", "-O1", "-ffp-contract=off", "-ftemplate-depth=4000", "-I" + INC, "-I" + HARN]
SAN = ["-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
sys.path.insert(0, VERIF)

from gatlver import sym as S
from gatlver import case as C
from gatlver import verify as V
from gatlver import bits as B
from gatlver import text as T
from gatlver.ir import Module, Unsupported


def load_specs(only=None):
    for f in sorted(glob.glob(os.path.join(VERIF, "spec", "*.py"))):
        name = os.path.basename(f)[:-3]
        if only and not name.lower().startswith(only.lower()) and not name.startswith("_"):
            continue
        sp = importlib.util.spec_from_file_location("spec_" + name, f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
    return C.ALL


def sh(cmd, timeout, cwd=None, inp=None):
    """(rc, stdout, stderr); rc None on timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE, cwd=cwd, text=True, errors="replace",
                         start_new_session=True)
    try:
        o, e = p.communicate(inp, timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        return None, "", "timeout"


def errs(e):
    return "\n".join(x[:400] for x in e.split("\n") if "error" in x or "required from here" in x)[:3000]


def compile_ir(cases, wd, tag, timeout):
    src = os.path.join(wd, tag + ".cpp")
    with open(src, "w") as f:
        f.write(cases[0].header())
        for k, c in enumerate(cases):
            f.write(c.source(f"K{k}"))
    ll = os.path.join(wd, tag + ".ll")
    rc, o, e = sh(CLANG + ["-DVF_IR", src, "-o", ll], timeout)
    if rc != 0:
        return None, e if rc is not None else "timeout"
    with open(ll) as f:
        t = poison_lifetimes(opaque_streams(f.read(), any(getattr(c, "textual", False) for c in cases)))
    if any(getattr(c, "bits", False) for c in cases):
        t = B.keep_helpers(t)
    with open(ll, "w") as f:
        f.write(t)
    rc, o, e = sh(OPT + [ll, "-o", ll + ".o"], timeout)
    os.unlink(ll)
    if rc != 0:
        return None, e if rc is not None else "timeout"
    with open(ll + ".o") as f:
        t = f.read()
    os.unlink(ll + ".o")
    return t, ""


STREAM = re.compile(r"^define (?:(?:available_externally|linkonce_odr|internal) )?([^\n]*@(?:_ZSt4endlI|_ZStlsISt11char_traitsIcEERSt13basic_ostream|_ZNSolsE)\w*\([^\n]*) \{\n.*?^\}\n", re.M | re.S)


TEXTUAL = re.compile(r"^define (?:(?:available_externally|linkonce_odr|internal) )?([^\n]*@(?:_ZStlsIcSt11char_traitsIcESaIcEE|_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE(?:[CD][12]|pLE|aSE|6append|6assign|9push_back|5clear)|_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE(?:4size|6length|5empty)|_ZStplIcSt11char_traitsIcESaIcEE)\w*\([^\n]*) \{\n.*?^\}\n", re.M | re.S)


def opaque_streams(t, textual=False):
    """Diagnostics written to a stream (GATL's one-time warnings) stay calls: they have no influence on any result.
    Mathematical functions stay calls as well: the compiler must not replace sqrt(2.0) by a rounded number."""
    t = re.sub(r"@(sqrt|cbrt|pow|exp|log|cos|sin|tan|cosh|sinh|tanh)\(", r"@vfm_\1(", t)
    def sub(m):
        h = re.sub(r" %[\w.]+(?=[,)])", "", m.group(1))
        return "declare " + re.sub(r" comdat(?:\([^)]*\))?| personality .*| align \d+$", "", h) + "\n"
    if textual:
        t = TEXTUAL.sub(sub, t)
    return STREAM.sub(sub, t)


def poison_lifetimes(t):
    """The optimiser forgets where lifetimes begin and end (it keeps the last value of a dead object).  Every object is overwritten
    by an opaque undefined byte at both ends of its lifetime, so that reading it outside of it is seen after optimisation."""
    k = 0

    def sub(m):
        nonlocal k
        k += 1
        return f"  %vfp.{k} = call i8 @vf_poison() #99999\n  call void @llvm.memset.p0.i64(ptr {m.group(2)}, i8 %vfp.{k}, i64 {m.group(1)}, i1 false)"
    t = re.sub(r"^  call void @llvm\.lifetime\.(?:start|end)\.p0\(i64 (?:immarg )?(\d+), ptr (?:\w+ )*([^)]+)\).*$", sub, t, flags=re.M)
    if k:
        t += "\ndeclare i8 @vf_poison() #99999\nattributes #99999 = { memory(none) nounwind willreturn }\n"
        if "declare void @llvm.memset.p0.i64" not in t:
            t += "declare void @llvm.memset.p0.i64(ptr, i8, i64, i1)\n"
    return t


MAIN = r'''
#include <cstdio>
#include <cstdlib>
#include <exception>
static vf_out OUT;
int main(int argc, char **argv) {
    int nr, nn, nq, cnt;
    if (scanf("%d %d %d %d", &cnt, &nr, &nn, &nq) != 4) return 3;
    double *a = (double *)calloc(nr + 1, sizeof(double)); long *n = (long *)calloc(nn + 1, sizeof(long)), *q = (long *)calloc(nq + 1, sizeof(long));
    for (int k = 0; k < cnt; ++k) {
        for (int i = 0; i < nr; ++i) if (scanf("%lf", a + i) != 1) return 3;
        for (int i = 0; i < nn; ++i) if (scanf("%ld", n + i) != 1) return 3;
        for (int i = 0; i < nq; ++i) if (scanf("%ld", q + i) != 1) return 3;
        OUT.n = 0;
        char const *thrown = 0;
        try { K(a, n, q, &OUT); } catch (std::exception const &ex) { thrown = ex.what(); } catch (...) { thrown = "?"; }
        if (thrown) printf("T %s\n", thrown);
        else { printf("R %ld\n", OUT.n); for (long i = 0; i < OUT.n; ++i) printf("%ld %ld %.17g\n", OUT.c[i].section, OUT.c[i].bits, OUT.c[i].v); }
        fflush(stdout);
    }
    return 0;
}
'''


def build_native(case, wd, tag, timeout, san=False):
    src = os.path.join(wd, tag + "_n.cpp")
    with open(src, "w") as f:
        f.write(case.header() + "#include <exception>\n" + case.source("K") + MAIN)
    exe = os.path.join(wd, tag + ("_s" if san else "_n"))
    rc, o, e = sh(GXX + (SAN if san else []) + [src, "-o", exe], timeout)
    if rc is None:
        return None, "timeout"
    if rc != 0 and not san and "always_inline" in e:
        # GNU C++ rejects run-time calls of recursive functions declared always_inline
        rc, o, e2 = sh(CLANG[:CLANG.index("-S")] + ["-O1", "-ftemplate-depth=4000", "-fconstexpr-steps=100000000", "-I" + INC, "-I" + HARN, src, "-o", exe], timeout)
    if rc != 0:
        return None, e
    return exe, src


def point_input(case, pts):
    """pts: list of dict(idx, vals)."""
    out = [f"{len(pts)} {case.nreal} {case.nidx} {case.nint}"]
    for p in pts:
        a = ["0"] * case.nreal
        q = ["0"] * case.nint
        for k, v in p["vals"].items():
            if k[0] == "a":
                a[int(k[1:])] = repr(float(case.eps.get(int(k[1:]), Fraction(v))))
            else:
                q[int(k[1:])] = str(int(Fraction(v)))
        out.append(" ".join(a + [str(x) for x in p["idx"]] + q))
    return "\n".join(out) + "\n"


def parse_runs(o, case=None):
    runs = []
    ls = o.split("\n")
    i = 0
    texts = []
    while i < len(ls):
        if ls[i].startswith("X "):
            texts.append(ls[i][2:].split(" ", 1))
            i += 1
        elif ls[i].startswith("R "):
            n = int(ls[i][2:])
            cells = []
            if i + n >= len(ls):
                break
            for x in ls[i + 1:i + 1 + n]:
                s, b, v = x.split()
                cells.append((int(s), int(b), float(v)))
            run = ("R", cells)
            for s, x in texts:
                try:
                    S.reset()
                    m = T.meaning([x], case.space.o, case.names)
                    cells += [(int(s), b, float(S.evaluate(v, {}, V.MP))) for b, v in m.d.items()]
                except T.TextError as e:
                    run = ("X", f"the text {x!r}: {e}")
            texts = []
            runs.append(run)
            i += n + 1
        elif ls[i].startswith("T "):
            runs.append(("T", ls[i][2:]))
            i += 1
        else:
            i += 1
    return runs


def numeric_spec(case, p):
    """('R', [dict]), ('O', SpecOutcome) or None when the specification is undefined at the point."""
    S.reset()
    reals = {s: S.RF.const(Fraction(p["vals"].get(f"a{s}", 0))) for s, _ in case.reals}
    ints = {s: S.RF.const(Fraction(p["vals"].get(f"q{s}", 0))) for s, _ in case.ints}
    ctx = V.NumCtx()
    try:
        E = C.Env(case, ctx, reals, tuple(p["idx"]), ints)
        if case.requires:
            for c in case.requires(E):
                ctx.add(*c)
        w = V.spec_run(case, E)
    except C.SpecOutcome as o:
        return ("O", o)
    except (ZeroDivisionError, V.Infeasible):
        return None
    if ctx.close:
        return None
    out = []
    for d in w:
        r = {}
        for b, v in d.items():
            x = S.evaluate(v, {}, V.MP)
            if V.MP.isnan(x) or V.MP.isinf(x):
                return None
            r[b] = float(x)
        if isinstance(d, V.SpanD):
            r, t = V.SpanD(r), r
            r.pivot = max(t, key=lambda b: abs(t[b]))
        out.append(r)
    return ("R", out)


def judge(case, spec, run):
    """None when the run satisfies the specification, else a description."""
    if spec is None:
        return None
    if spec[0] == "O":
        k = spec[1].kind
        if k == "any":
            return None
        if run[0] == "R":
            return f"expected {k} {spec[1].info}, the call returned"
        if run[0] == "T":
            return None if k in ("throw", "fail") else f"expected {k}, got exception {run[1]}"
        return None if k in ("assert", "fail", "abort") else f"expected {k}, got {run}"
    if run[0] == "X":
        return "not the notation of a multivector: " + run[1]
    if run[0] != "R":
        return f"expected a result, got {run[0]} {str(run[1])[:200]}"
    secs = [dict() for _ in spec[1]]
    for s, b, v in run[1]:
        secs[s][b] = secs[s].get(b, 0.0) + v
    for s, (g, w) in enumerate(zip(secs, spec[1])):
        if isinstance(w, V.SpanD):
            m = max([abs(x) for x in g.values()] + [0.0])
            f = w[w.pivot]
            h = g.get(w.pivot, 0.0)
            if not m > 0 or not abs(h) > 1e-6 * m:
                return f"output {s} ({case.outs[s][0]}): computed {g}, specified a non-zero multiple of {dict(w)}"
            g = {b: x * f / h for b, x in g.items()}
        scale = max([abs(x) for x in w.values()] + [1.0])
        for b in sorted(set(g) | set(w)):
            x, y = g.get(b, 0.0), w.get(b, 0.0)
            if not abs(x - y) <= min(case.tol, 1e-9 if S.NARROW[0] else 1) * scale:
                return f"output {s} ({case.outs[s][0]}) component {b:#b}: computed {x!r}, specified {y!r}"
    return None


def native_run(exe, case, pts, timeout=60):
    rc, o, e = sh([exe], timeout, inp=point_input(case, pts))
    return rc, parse_runs(o, case), e


def replay(case, wd, tag, cands, timeout, san=False):
    """Run candidate points on the real code; first disagreement wins."""
    exe, src = build_native(case, wd, tag, timeout, san)
    if exe is None:
        return ("nobuild", src)
    for p in cands:
        sp = numeric_spec(case, p)
        rc, runs, e = native_run(exe, case, [p])
        if rc is None:
            continue
        if rc != 0 and not runs:
            run = ("abort", f"exit {rc}: " + (errs(e) or e[:600]))
        elif not runs:
            continue
        else:
            run = runs[0]
        j = judge(case, sp, run)
        if j is None and san and run[0] == "abort" and sp is not None:
            j = run[1]
        if j:
            return ("confirmed", j, p, run, sp)
    return ("agrees", None)


def random_points(case, rng, count):
    pts = []
    doms = case.dom or case.idxdom
    allc = [B.random_idx(case, rng) for _ in range(count)] if getattr(case, "bits", False) else list(V.combos(doms))
    for k in range(count):
        mode = k % 3
        vals = {}
        for s, _ in case.reals:
            if mode == 0:
                x = Fraction(rng.randint(-24, 24), 8)
            elif mode == 1:
                x = Fraction(rng.randint(-3, 3))
            else:
                x = Fraction(rng.randint(-400, 400), 64)
            vals[f"a{s}"] = str(x) if s not in case.eps else "0"
        for s, _ in case.ints:
            vals[f"q{s}"] = str(rng.randint(-9, 9))
        pts.append({"idx": list(allc[k % len(allc)] if count <= len(allc) else rng.choice(allc)), "vals": vals})
    return pts


def bounded(case, wd, tag, rng, timeout, count=200):
    """Random testing on the real code: the labelled, bounded stand-in for a case the prover could not decide."""
    exe, src = build_native(case, wd, tag, timeout)
    if exe is None:
        return ("nobuild", src)
    pts = random_points(case, rng, count)
    good = []
    specs = []
    t0 = time.time()
    for p in pts:
        if time.time() - t0 > 40:
            break
        sp = numeric_spec(case, p)
        if sp is not None:
            good.append(p)
            specs.append(sp)
    if not good:
        return ("ok", 0)
    rc, runs, e = native_run(exe, case, good)
    for p, sp, r in zip(good, specs, runs):
        j = judge(case, sp, r)
        if j:
            return ("confirmed", j, p, r, sp)
    if rc != 0 and len(runs) < len(good):
        p, sp = good[len(runs)], specs[len(runs)]
        j = judge(case, sp, ("abort", f"exit {rc}: {e[:300]}"))
        if j:
            return ("confirmed", j, p, ("abort", rc), sp)
    return ("ok", len(good))


class Alarm(Exception):
    pass


def _alarm(*_):
    raise Alarm()


SLOW = Value("i", 0)      # cases whose time budget ran out (shared by all worker processes)


def do_case(case, mod, sym, wd, tag, seed, budget, cto, deadline):
    if SLOW.value >= 8:
        budget /= 4         # the code has become hard for the verifier: keep time for the other contracts
    rng = random.Random(f"{seed}:{case.name}")
    S.NARROW[0] = False
    res = {"name": case.name, "text": case.text, "outs": [o[0] for o in case.outs], "space": case.space.name}
    R = None
    note = None
    try:
        if case.numeric_only:
            raise Unsupported("declared bounded: " + str(case.numeric_only))
        signal.signal(signal.SIGALRM, _alarm)
        signal.signal(signal.SIGPROF, _alarm)
        grace = 30 if budget > 30 else 10
        signal.setitimer(signal.ITIMER_PROF, budget + grace)            # processor time: a busy machine does not change the verdict
        signal.setitimer(signal.ITIMER_REAL, min(3 * (budget + grace), max(10, deadline + 90 - time.time())))
        try:
            R = (B if getattr(case, "bits", False) else V).verify(case, mod, sym, rng, budget)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Unsupported as e:
        note = f"not within the verifier's reach: {e}"
    except (V.Budget, Alarm) as e:
        with SLOW.get_lock():
            SLOW.value += 1
        note = f"time budget exhausted {e}"
    except RecursionError:
        note = "recursion limit " + (traceback.format_exc()[-900:] if os.environ.get("VF_DEBUG") else "")
    except MemoryError:
        note = "memory"
    except Exception as e:
        note = f"verifier error {type(e).__name__}: {e} " + traceback.format_exc()[-600:]
    if R is not None:
        for k in ("obligations", "discharged", "by", "paths", "returned", "solver_time", "solver_calls", "witness", "vacuity", "time", "combos", "sample", "spec_undefined"):
            res[k] = getattr(R, k)
        res["undischarged"] = R.undischarged[:5]
        res["n_undischarged"] = len(R.undischarged)
        if R.failed:
            pts = [f["point"] for f in R.failed if f.get("point")]
            rp = replay(case, wd, tag, pts[:12], cto)
            res["failed"] = R.failed[:6]
            if rp[0] == "confirmed":
                res["status"] = "violation"
                res["replay"] = {"what": rp[1], "point": rp[2], "run": rp[3], "spec": show_spec(rp[4]), "obligation": R.failed[0]["obligation"]}
                return res
            b = bounded(case, wd, tag, rng, cto)
            if b[0] == "confirmed":
                res["status"] = "violation"
                res["replay"] = {"what": b[1], "point": b[2], "run": b[3], "spec": show_spec(b[4]), "obligation": R.failed[0]["obligation"]}
                return res
            note = f"refutation not reproduced on the real code ({rp[0]})"
            res["status"] = "undecided"
            res["note"] = note
            return res
        if R.faults:
            pts = [f["point"] for f in R.faults if f.get("point")]
            res["failed"] = R.faults[:6]
            for san in (False, True):
                rp = replay(case, wd, tag + "f", pts[:12], cto * 2, san)
                if rp[0] == "confirmed":
                    res["status"] = "violation"
                    res["replay"] = {"what": rp[1], "point": rp[2], "run": rp[3], "spec": show_spec(rp[4]), "obligation": R.faults[0]["obligation"],
                                     "sanitizer": san}
                    return res
            res["status"] = "violation-noinput"
            res["note"] = R.faults[0]["obligation"] + ": " + R.faults[0]["detail"]
            return res
        if R.undischarged:
            pts = [f["point"] for f in R.undischarged if f.get("point")]
            if pts:
                rp = replay(case, wd, tag, pts[:8], cto)
                if rp[0] == "confirmed":
                    res["status"] = "violation"
                    res["replay"] = {"what": rp[1], "point": rp[2], "run": rp[3], "spec": show_spec(rp[4]), "obligation": R.undischarged[0]["obligation"]}
                    res["failed"] = R.undischarged[:3]
                    return res
            note = f"{len(R.undischarged)} obligations undischarged"
        elif R.returned == 0 and case.expect is None:
            note = "vacuous: no path returned"
        elif R.witness == 0 and R.returned:
            note = "no precondition witness found"
        elif R.vacuity is False:
            note = "perturbed postcondition was accepted"
        else:
            res["status"] = "proved"
            return res
    b = bounded(case, wd, tag, rng, cto)
    res["note"] = note
    if b[0] == "confirmed":
        res["status"] = "violation"
        res["failed"] = [{"obligation": case.name + "/bounded", "detail": note}]
        res["replay"] = {"what": b[1], "point": b[2], "run": b[3], "spec": show_spec(b[4]), "obligation": case.name + "/postcondition"}
    elif b[0] == "ok":
        res["status"] = "bounded"
        res["evaluations"] = b[1]
    else:
        res["status"] = "undecided"
        res["note"] = f"{note}; native build: {errs(b[1])[:300]}"
    return res


def show_spec(sp):
    if sp is None:
        return None
    if sp[0] == "O":
        return f"{sp[1].kind} {sp[1].info}"
    return [{f"{b:#b}": v for b, v in d.items()} for d in sp[1]]


def do_tu(job):
    cases_idx, wd, tag, seed, budget, cto, deadline = job
    cases = [C.ALL[k] for k in cases_idx]
    out = []
    try:
        if time.time() > deadline:
            return [{"name": c.name, "status": "undecided", "note": "the check's deadline passed before this case"} for c in cases], 0.0
        t = time.time()
        txt, e = compile_ir(cases, wd, tag, cto)
        ct = time.time() - t
        groups = [(txt, cases, [f"K{k}" for k in range(len(cases))])]
        if txt is None:
            groups = []
            for k, c in enumerate(cases):
                if len(cases) > 1 or e == "timeout":
                    t = time.time()
                    txt, e2 = compile_ir([c], wd, f"{tag}_{k}", cto * 2) if len(cases) > 1 else (None, e)
                    ct += time.time() - t
                else:
                    txt, e2 = None, e
                if txt is not None:
                    groups.append((txt, [c], ["K0"]))
                    continue
                # rejected by clang: does the reference compiler accept it?
                exe, ge = build_native(c, wd, f"{tag}_{k}", cto * 2)
                if exe is None and ge != "timeout" and e2 != "timeout":
                    out.append({"name": c.name, "status": "rejected", "note": "the compilers reject the contract's program: " + errs(ge)[:1500],
                                "failed": [{"obligation": c.name + "/well-formed", "detail": errs(ge)[:600]}]})
                elif exe is None:
                    out.append({"name": c.name, "status": "undecided", "note": "compilation timed out"})
                else:
                    rng = random.Random(f"{seed}:{c.name}")
                    b = bounded(c, wd, f"{tag}_{k}", rng, cto * 2)
                    r = {"name": c.name, "note": "clang rejects the translation unit: " + errs(e2)[:300]}
                    if b[0] == "confirmed":
                        r.update(status="violation", failed=[{"obligation": c.name + "/postcondition", "detail": "bounded"}],
                                 replay={"what": b[1], "point": b[2], "run": b[3], "spec": show_spec(b[4]), "obligation": c.name + "/postcondition"})
                    else:
                        r.update(status="bounded", evaluations=b[1] if b[0] == "ok" else 0)
                    out.append(r)
        for txt, cs, syms in groups:
            mod = Module(txt)
            for c, s in zip(cs, syms):
                if time.time() > deadline:
                    out.append({"name": c.name, "status": "undecided", "note": "the check's deadline passed before this case"})
                    continue
                try:
                    r = do_case(c, mod, s, wd, f"{tag}_{s}", seed, budget, cto, deadline)
                except Exception as e:
                    r = {"name": c.name, "status": "undecided", "note": f"verifier error {type(e).__name__}: {e} {traceback.format_exc()[-600:]}"}
                out.append(r)
        return out, ct
    except Exception as e:
        done = {r["name"] for r in out}
        for c in cases:
            if c.name not in done:
                out.append({"name": c.name, "status": "undecided", "note": f"verifier error {type(e).__name__}: {e} {traceback.format_exc()[-2500:]}"})
        return out, 0.0


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    flt = None
    verbose = False
    for a in argv[1:]:
        if a in ("quick", "thorough"):
            tier = a
        elif a == "-v":
            verbose = True
        else:
            flt = a
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    load_specs(prop)
    sel = [k for k, c in enumerate(C.ALL) if c.prop == prop and (tier == "thorough" or c.tier == "quick") and (not flt or re.search(flt, c.name))]
    names = [C.ALL[k].name for k in sel]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
    limit = 600 if tier == "quick" else 3 * 3600
    budget = 60 if tier == "quick" else 900
    cto = 240 if tier == "quick" else 1500
    # group by translation-unit header
    groups = {}
    for k in sel:
        groups.setdefault(C.ALL[k].header(), []).append(k)
    jobs = []
    total = sum(C.ALL[k].weight for k in sel)
    per = max(2.0, total / 14)
    wd = tempfile.mkdtemp(prefix=f"gatlver_{prop}_")
    try:
        for h, ks in groups.items():
            ks.sort(key=lambda k: -C.ALL[k].weight)
            bins = max(1, min(len(ks), round(sum(C.ALL[k].weight for k in ks) / per)))
            load = [[0.0, []] for _ in range(bins)]
            for k in ks:
                b = min(load, key=lambda x: x[0])
                b[0] += C.ALL[k].weight
                b[1].append(k)
            for w, b in load:
                if b:
                    jobs.append((w, b))
        jobs.sort(key=lambda x: -x[0])
        jobs = [(b, wd, f"tu{i}", seed, budget, cto, t0 + limit) for i, (w, b) in enumerate(jobs)]
        results = []
        ct = 0.0
        with Pool(min(8, len(jobs) or 1), maxtasksperchild=4) as pool:
            kn = {k for k, _ in known_findings(prop)}
            internal = {c.name: c.internal for c in C.ALL}
            for out, c in pool.imap_unordered(do_tu, jobs):
                results += out
                ct += c
                if os.environ.get("VF_FAILFAST") and any(r["status"] in ("violation", "violation-noinput", "rejected") and not r["name"].startswith("root_zero_neg") for r in out):
                    pool.terminate()
                    break
                if tier == "quick" and sum(r["status"] == "violation" and r["name"] not in kn and not internal[r["name"]] for r in results) >= 10:
                    pool.terminate()        # enough failing inputs: the rest of the contracts would repeat them
                    break
                if verbose:
                    print(f"TU {len(out)} cases, compiled in {c:.1f} s, verified in {sum(r.get('time', 0) for r in out):.1f} s, done at {time.time() - t0:.1f} s")
                if verbose:
                    for r in out:
                        print(f"  {r['name']:40s} {r['status']:10s} obl={r.get('obligations')}/{r.get('discharged')} paths={r.get('paths')} t={r.get('time', 0):.1f} {(r.get('note') or '')[:300]}", flush=True)
                        for f in (r.get("failed") or [])[:2] + (r.get("undischarged") or [])[:2]:
                            print("      ", json.dumps(f)[:700])
                        if r.get("replay"):
                            print("      REPLAY", json.dumps(r["replay"], default=str)[:600])
        return report(prop, tier, seed, results, ct, t0, flt)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) case=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def report(prop, tier, seed, results, ct, t0, flt):
    results.sort(key=lambda r: r["name"])
    bycase = {c.name: c for c in C.ALL}
    known = dict(known_findings(prop))
    BAD = ("violation", "violation-noinput", "rejected")
    if not any(r["status"] in BAD and not bycase[r["name"]].internal for r in results):
        # a helper whose contract changed, while everything built on it keeps its contract, is not a violation
        for r in results:
            if r["status"] in BAD:
                r["note"] = f"contract of an internal function fails ({r['status']}), the public contracts hold: " + str(r.get("note") or (r.get("replay") or {}).get("what"))
                r["status"] = "undecided"
    viol = [r for r in results if r["status"] in BAD]
    rdir = os.path.join(VERIF, "evidence", "replay")
    lines = []
    nviol = 0
    for r in viol:
        if r["name"] in known:
            print(f"KNOWN-FINDING: property={prop} {r['name']}: {known[r['name']]}")
            continue
        nviol += 1
        os.makedirs(rdir, exist_ok=True)
        c = bycase[r["name"]]
        base = os.path.join(rdir, f"{prop}-{re.sub(r'[^A-Za-z0-9_]+', '_', r['name'])}")
        with open(base + ".cpp", "w") as f:
            f.write(c.header() + "#include <exception>\n" + c.source("K") + MAIN)
        rec = {"property": prop, "contract": r["name"], "status": r["status"], "failed_obligations": r.get("failed"), "note": r.get("note"),
               "program": base + ".cpp", "build": " ".join(GXX + (SAN if (r.get("replay") or {}).get("sanitizer") else []) + [base + ".cpp", "-o", "/tmp/replay"])}
        rp = r.get("replay")
        if rp:
            rec["replay"] = rp
            rec["stdin"] = point_input(c, [rp["point"]])
        with open(base + ".json", "w") as f:
            json.dump(rec, f, indent=1, default=str)
        tail = "" if rp or r["status"] == "rejected" else " no-failing-input-found"
        lines.append(f"VIOLATION property={prop} replay={base}.json{tail}")
        what = (rp or {}).get("what") or r.get("note")
        print(f"  {r['name']}: {str((r.get('failed') or [{}])[0].get('obligation'))}: {str(what)[:300]}")
    proved = [r for r in results if r["status"] == "proved"]
    bnd = [r for r in results if r["status"] == "bounded"]
    und = [r for r in results if r["status"] == "undecided"]
    obl = sum(r.get("obligations", 0) for r in results)
    dis = sum(r.get("discharged", 0) for r in results)
    by = {}
    for r in results:
        for k, v in (r.get("by") or {}).items():
            by[k] = by.get(k, 0) + v
    cov = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": f"python3-vt -m gatlver {prop} (symbolic execution of clang-18 LLVM IR of /repo's headers; exact rational-function normal forms; z3 4.x)",
        "trusted_base": ["clang 18 front end and -O1 pipeline (C++ to LLVM IR)", "gatlver: IR parser, symbolic executor and exact arithmetic normal forms",
                         "gatlver/oracle.py: textbook Clifford algebra and the specifications in spec/", "z3 for the obligations it discharges",
                         "libm functions treated as the mathematical functions"],
        "contracts": len(results), "contracts_proved": len(proved), "contracts_bounded": len(bnd), "contracts_undecided": len(und),
        "discharged_by": by, "paths": sum(r.get("paths", 0) for r in results), "index_combinations": sum(r.get("combos", 0) for r in results),
        "solver_s": round(sum(r.get("solver_time", 0) for r in results), 2), "solver_calls": sum(r.get("solver_calls", 0) for r in results),
        "compile_s": round(ct, 1), "verification_s": round(sum(r.get("time", 0) for r in results), 1),
        "functions_under_contract": sorted({f"{r['space']}: {o[:100]}" for r in results if "space" in r for o in r.get("outs", [])})[:400],
        "precondition_witnesses": sum(r.get("witness", 0) for r in results),
        "perturbed_postconditions_refuted": sum(1 for r in results if r.get("vacuity")),
        "bounded": [{"contract": r["name"], "reason": (r.get("note") or "")[:300], "evaluations": r.get("evaluations", 0)} for r in bnd],
        "undecided": [{"contract": r["name"], "reason": (r.get("note") or "")[:300]} for r in und],
        "samples": [r["sample"] for r in results if r.get("sample")][:4],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "wall_s": round(time.time() - t0, 1), "violations": nviol,
          "assumptions": ["coefficients are mathematical reals (rounding, overflow and NaN inputs are outside the contracts); integral coefficients are mathematical integers",
                          "the contracts quantify over all coefficient values and all runtime indices of the listed template instantiations; types not instantiated are not covered",
                          "the IR verified is clang's; the shipped binary is the user's compiler's"]}
    if not flt:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"{prop}: {len(results)} contracts, {len(proved)} proved, {len(bnd)} bounded, {len(und)} undecided, {nviol} violated; "
          f"{dis}/{obl} obligations discharged; {time.time() - t0:.1f}s")
    for r in und + bnd:
        print(f"  {r['status']}: {r['name']}: {(r.get('note') or '')[:160]}")
    for l in lines:
        print(l)
    return 1 if nviol else 0
