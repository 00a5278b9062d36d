"""Parser for the subset of LLVM-18 textual IR that clang -O1 emits for the harness translation units."""
import re
import struct
from fractions import Fraction


class Unsupported(Exception):
    """A construct the verifier does not model: a tool limit, never a verdict about the code."""


# ------------------------------------------------------------------ types
class T:
    __slots__ = ("k", "n", "e", "size", "align", "offs")

    def __init__(self, k, n=0, e=None):
        self.k, self.n, self.e = k, n, e
        self.offs = None
        if k == "i":
            self.size = max(1, (n + 7) // 8)
            if self.size & (self.size - 1):
                self.size = 1 << self.size.bit_length()
            self.align = min(self.size, 16)
        elif k == "f":
            self.size = n // 8
            self.align = self.size
        elif k == "ptr":
            self.size = self.align = 8
        elif k == "void" or k == "meta" or k == "label":
            self.size, self.align = 0, 1
        elif k == "arr":
            self.size, self.align = n * e.size, e.align
        elif k == "vec":
            self.size = n * e.size
            self.align = self.size
        elif k == "struct":
            packed = n
            o, al, offs = 0, 1, []
            for t in e:
                a = 1 if packed else t.align
                o = (o + a - 1) // a * a
                offs.append(o)
                o += t.size
                al = max(al, a)
            self.offs = offs
            self.align = al
            self.size = (o + al - 1) // al * al

    def __repr__(self):
        return f"{self.k}{self.n}"


VOID, PTR, DBL, FLT = T("void"), T("ptr"), T("f", 64), T("f", 32)
INTS = {}


def INT(n):
    if n not in INTS:
        INTS[n] = T("i", n)
    return INTS[n]


TOK = re.compile(r'''
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 |(?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-\w$.]+))
 |(?P<meta>![\w.]*(?:\([^)]*\))?)
 |(?P<attr>\#\d+)
 |(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+|0x[KLMHR][0-9A-Fa-f]+|-?\d+)
 |(?P<word>[A-Za-z_$][\w$.]*)
 |(?P<dots>\.\.\.)
 |(?P<p>[()\[\]{}<>,=*:|])
 |(?P<ws>\s+)
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise Unsupported(f"token at {s[i:i+40]!r}")
        k = m.lastgroup
        if k != "ws":
            out.append((k, m.group()))
        i = m.end()
    return out


class Fn:
    __slots__ = ("name", "params", "ret", "blocks", "order", "lines", "parsed", "decl")


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.fns = {}
        self.aliases = {}
        self._typedefs = {}
        self.parse(text)

    # ---- types
    def ptype(self, t, i):
        k, v = t[i]
        if k == "word":
            if re.fullmatch(r"i\d+", v):
                r = INT(int(v[1:]))
            elif v == "double":
                r = DBL
            elif v == "float":
                r = FLT
            elif v == "ptr":
                r = PTR
                i += 1
                if i < len(t) and t[i][1] == "addrspace":
                    i += 4
                return self._suffix(r, t, i)
            elif v == "void":
                r = VOID
            elif v in ("metadata", "token"):
                r = T("meta")
            elif v == "label":
                r = T("label")
            elif v == "x86_fp80":
                r = T("i", 128)
            elif v == "opaque":
                r = T("struct", 0, [])
            else:
                raise Unsupported(f"type {v}")
            return self._suffix(r, t, i + 1)
        if k == "loc":
            return self._suffix(self.named(v), t, i + 1)
        if v == "[":
            n = int(t[i + 1][1])
            e, j = self.ptype(t, i + 3)
            return self._suffix(T("arr", n, e), t, j + 1)
        if v == "<":
            if t[i + 1][1] == "{":
                r, j = self.pstruct(t, i + 1, True)
                return self._suffix(r, t, j + 1)
            n = int(t[i + 1][1])
            e, j = self.ptype(t, i + 3)
            return self._suffix(T("vec", n, e), t, j + 1)
        if v == "{":
            r, j = self.pstruct(t, i, False)
            return self._suffix(r, t, j)
        raise Unsupported(f"type token {v}")

    def _suffix(self, r, t, i):
        # function types: ret (args...) -- treated opaquely
        if i < len(t) and t[i][1] == "(" and r is not None and self._fnty(t, i):
            d = 0
            while True:
                if t[i][1] == "(":
                    d += 1
                elif t[i][1] == ")":
                    d -= 1
                i += 1
                if d == 0:
                    break
        return r, i

    def _fnty(self, t, i):
        # a '(' right after a type is a function type only when followed by a type or ')' and later the callee
        nxt = t[i + 1][1] if i + 1 < len(t) else ""
        return False if nxt == "" else (nxt in (")", "...", "ptr", "double", "i64", "i32", "float") and self._varargs)

    _varargs = False

    def pstruct(self, t, i, packed):
        es = []
        i += 1
        while t[i][1] != "}":
            if t[i][1] == ",":
                i += 1
                continue
            e, i = self.ptype(t, i)
            es.append(e)
        return T("struct", 1 if packed else 0, es), i + 1

    def named(self, name):
        if name not in self.types:
            body = self._typedefs.get(name)
            if body is None or body.startswith("opaque"):
                self.types[name] = T("struct", 0, [])
            else:
                t = tokenize(body)
                self.types[name], _ = self.ptype(t, 0)
        return self.types[name]

    # ---- module
    def parse(self, text):
        lines = text.split("\n")
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("%") and " = type " in l:
                a, b = l.split(" = type ", 1)
                self._typedefs[a.strip()] = b
            elif l.startswith("@"):
                self.pglobal(l)
            elif l.startswith("define "):
                body = []
                head = l
                i += 1
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                self.pdefine(head, body)
            elif l.startswith("declare "):
                m = re.search(r"@(\"[^\"]*\"|[-\w$.]+)\(", l)
                f = Fn()
                f.name = m.group(1).strip('"')
                f.decl = True
                self.fns.setdefault("@" + m.group(1), f)
            i += 1

    def pglobal(self, l):
        m = re.match(r"(@(?:\"(?:[^\"\\]|\\.)*\"|[-\w$.]+)) = (.*)$", l)
        name, rest = m.groups()
        if re.search(r"\balias\b", rest.split("@")[0]):
            tgt = re.findall(r"@(?:\"[^\"]*\"|[-\w$.]+)", rest)
            self.aliases[name] = tgt[-1]
            return
        self.globals[name] = rest

    def ctors(self):
        """Functions that initialise the static objects, in order."""
        return re.findall(r"ptr (@[-\w$.]+)", self.globals.get("@llvm.global_ctors", "").split("]", 1)[-1])

    def global_init(self, name):
        """(type, constant, is_constant) of a global variable."""
        rest = self.globals[name]
        m = re.search(r"(?:^|\s)(global|constant)\s+(.*)$", rest)
        if not m:
            raise Unsupported("global " + name)
        const = m.group(1) == "constant"
        t = tokenize(re.sub(r", (align \d+|comdat.*|section .*|!.*)$", "", re.sub(r", align \d+$", "", m.group(2))))
        ty, j = self.ptype(t, 0)
        if "external" in rest[: m.start(1)]:
            return ty, None, const
        c, j = self.pconst(ty, t, j)
        return ty, c, const

    def pdefine(self, head, body):
        m = re.search(r"(@(?:\"(?:[^\"\\]|\\.)*\"|[-\w$.]+))\(", head)
        f = Fn()
        f.name = m.group(1)
        f.decl = False
        f.parsed = False
        # parameters
        i = m.end()
        d = 1
        j = i
        while d:
            c = head[j]
            if c == '"':
                j = head.index('"', j + 1)
            elif c == "(":
                d += 1
            elif c == ")":
                d -= 1
            j += 1
        t = tokenize(head[i:j - 1])
        f.params = []
        depth = 0
        cur = []
        parts = []
        for tok in t:
            if tok[1] in "([{<":
                depth += 1
            elif tok[1] in ")]}>":
                depth -= 1
            if tok[1] == "," and depth == 0:
                parts.append(cur)
                cur = []
            else:
                cur.append(tok)
        if cur:
            parts.append(cur)
        for p in parts:
            if p[0][1] == "...":
                continue
            ty, _ = self.ptype(p, 0)
            name = p[-1][1] if p[-1][0] == "loc" else None
            f.params.append((ty, name))
        f.lines = body
        self.fns[f.name] = f

    # ---- function bodies
    def body(self, f):
        if f.parsed:
            return f
        f.blocks = {}
        cur = "%entry!"
        ins = []
        first = None
        k = 0
        lines = f.lines
        nparams = len([1 for _, n in f.params])
        while k < len(lines):
            l = lines[k]
            k += 1
            if not l.strip() or l.startswith(";"):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w$.]+):', l)
            if m:
                if ins or first is not None:
                    f.blocks[cur] = ins
                cur = "%" + m.group(1)
                if first is None:
                    first = cur
                ins = []
                continue
            if first is None:
                # the entry block has an implicit number
                first = cur = "%" + str(nparams)
            s = l
            # join multi-line instructions (switch, landingpad, invoke)
            if re.search(r"\bswitch\b", s) and s.rstrip().endswith("["):
                while not lines[k].strip().startswith("]"):
                    s += " " + lines[k].strip()
                    k += 1
                s += " ]"
                k += 1
            while k < len(lines) and re.match(r"^\s+(to label|cleanup|catch |filter )", lines[k]):
                s += " " + lines[k].strip()
                k += 1
            ins.append(s.strip())
        f.blocks[cur] = ins
        f.order = list(f.blocks)
        for b in f.blocks:
            f.blocks[b] = [self.pins(x) for x in f.blocks[b]]
        f.parsed = True
        f.lines = None
        return f

    FLAGS = {"nuw", "nsw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc",
             "disjoint", "nneg", "volatile", "tail", "musttail", "notail", "samesign"}

    def pins(self, s):
        s = re.sub(r",? !(tbaa|noalias|alias\.scope|prof|llvm\.loop|range|srcloc|nonnull|noundef|align|heapallocsite|nosanitize|tbaa\.struct|dereferenceable|unpredictable) ![\d]+", "", s)
        s = re.sub(r", !\w[\w.]* !\d+", "", s)
        res = None
        m = re.match(r'^(%(?:"(?:[^"\\]|\\.)*"|[-\w$.]+)) = (.*)$', s)
        if m:
            res, s = m.groups()
        t = tokenize(s)
        i = 0
        while t[i][1] in self.FLAGS:
            i += 1
        op = t[i][1]
        i += 1
        fl = set()
        while i < len(t) and t[i][1] in self.FLAGS:
            fl.add(t[i][1])
            i += 1
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            ty, i = self.ptype(t, i)
            a, i = self.pval(ty, t, i)
            b, i = self.pval(ty, t, i + 1)
            return (op, res, ty, a, b)
        if op == "fneg" or op == "freeze":
            ty, i = self.ptype(t, i)
            a, i = self.pval(ty, t, i)
            return (op, res, ty, a)
        if op in ("icmp", "fcmp"):
            pred = t[i][1]
            ty, i = self.ptype(t, i + 1)
            a, i = self.pval(ty, t, i)
            b, i = self.pval(ty, t, i + 1)
            return (op, res, pred, ty, a, b)
        if op in ("zext", "sext", "trunc", "bitcast", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc",
                  "ptrtoint", "inttoptr"):
            ty, i = self.ptype(t, i)
            a, i = self.pval(ty, t, i)
            assert t[i][1] == "to"
            ty2, i = self.ptype(t, i + 1)
            return (op, res, ty, a, ty2)
        if op == "alloca":
            ty, i = self.ptype(t, i)
            cnt = None
            if i + 1 < len(t) and t[i][1] == "," and t[i + 1][1] not in ("align", "addrspace"):
                cty, i = self.ptype(t, i + 1)
                cnt, i = self.pval(cty, t, i)
            return (op, res, ty, cnt)
        if op == "load":
            ty, i = self.ptype(t, i)
            pty, i = self.ptype(t, i + 1)
            a, i = self.pval(pty, t, i)
            return (op, res, ty, a)
        if op == "store":
            ty, i = self.ptype(t, i)
            a, i = self.pval(ty, t, i)
            pty, i = self.ptype(t, i + 1)
            b, i = self.pval(pty, t, i)
            return (op, res, ty, a, b)
        if op == "getelementptr":
            bt, i = self.ptype(t, i)
            pty, i = self.ptype(t, i + 1)
            base, i = self.pval(pty, t, i)
            idx = []
            while i < len(t) and t[i][1] == ",":
                ity, i = self.ptype(t, i + 1)
                v, i = self.pval(ity, t, i)
                idx.append((ity, v))
            return (op, res, bt, base, idx)
        if op == "select":
            cty, i = self.ptype(t, i)
            c, i = self.pval(cty, t, i)
            ty, i = self.ptype(t, i + 1)
            a, i = self.pval(ty, t, i)
            ty, i = self.ptype(t, i + 1)
            b, i = self.pval(ty, t, i)
            return (op, res, ty, c, a, b)
        if op == "phi":
            ty, i = self.ptype(t, i)
            inc = {}
            while i < len(t):
                if t[i][1] == "[":
                    v, j = self.pval(ty, t, i + 1)
                    lab = t[j + 1][1]
                    inc[lab] = v
                    i = j + 3
                else:
                    i += 1
            return (op, res, ty, inc)
        if op == "br":
            if t[i][1] == "label":
                return (op, res, t[i + 1][1])
            ty, i = self.ptype(t, i)
            c, i = self.pval(ty, t, i)
            l1 = t[i + 2][1]
            l2 = t[i + 5][1]
            return ("brc", res, c, l1, l2)
        if op == "switch":
            ty, i = self.ptype(t, i)
            c, i = self.pval(ty, t, i)
            d = t[i + 2][1]
            i += 4
            cases = []
            while t[i][1] != "]":
                ty, i = self.ptype(t, i)
                v, i = self.pval(ty, t, i)
                cases.append((v, t[i + 2][1]))
                i += 3
            return (op, res, ty, c, d, cases)
        if op == "ret":
            ty, i = self.ptype(t, i)
            if ty.k == "void":
                return (op, res, None, None)
            v, i = self.pval(ty, t, i)
            return (op, res, ty, v)
        if op == "unreachable":
            return (op, res)
        if op in ("call", "invoke"):
            return self.pcall(op, res, t, i)
        if op == "extractvalue":
            ty, i = self.ptype(t, i)
            v, i = self.pval(ty, t, i)
            idx = []
            while i < len(t) and t[i][1] == ",":
                idx.append(int(t[i + 1][1]))
                i += 2
            return (op, res, ty, v, idx)
        if op == "insertvalue":
            ty, i = self.ptype(t, i)
            v, i = self.pval(ty, t, i)
            ty2, i = self.ptype(t, i + 1)
            w, i = self.pval(ty2, t, i)
            idx = []
            while i < len(t) and t[i][1] == ",":
                idx.append(int(t[i + 1][1]))
                i += 2
            return (op, res, ty, v, ty2, w, idx)
        if op == "extractelement":
            ty, i = self.ptype(t, i)
            v, i = self.pval(ty, t, i)
            ty2, i = self.ptype(t, i + 1)
            x, i = self.pval(ty2, t, i)
            return (op, res, ty, v, x)
        if op == "insertelement":
            ty, i = self.ptype(t, i)
            v, i = self.pval(ty, t, i)
            ty2, i = self.ptype(t, i + 1)
            e, i = self.pval(ty2, t, i)
            ty3, i = self.ptype(t, i + 1)
            x, i = self.pval(ty3, t, i)
            return (op, res, ty, v, e, x)
        if op == "shufflevector":
            ty, i = self.ptype(t, i)
            v, i = self.pval(ty, t, i)
            ty2, i = self.ptype(t, i + 1)
            w, i = self.pval(ty2, t, i)
            ty3, i = self.ptype(t, i + 1)
            m, i = self.pval(ty3, t, i)
            return (op, res, ty, v, w, m)
        if op in ("landingpad", "resume"):
            return (op, res)
        return ("unsupported", res, s)

    PATTR = {"noundef", "nonnull", "signext", "zeroext", "noalias", "nocapture", "readonly", "writeonly", "returned",
             "immarg", "readnone", "swiftself", "inreg", "nofree", "nest", "noreturn", "fastcc", "ccc", "coldcc",
             "writable", "dead_on_unwind"}

    def skip_attrs(self, t, i):
        while i < len(t):
            v = t[i][1]
            if v in self.PATTR:
                i += 1
            elif v == "align":
                i += 2 if t[i + 1][0] == "num" else 4
            elif v in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "elementtype", "range", "captures"):
                i += 1
                d = 0
                while True:
                    if t[i][1] == "(":
                        d += 1
                    elif t[i][1] == ")":
                        d -= 1
                    i += 1
                    if d == 0:
                        break
            else:
                return i
        return i

    def pcall(self, op, res, t, i):
        i = self.skip_attrs(t, i)
        ty, i = self.ptype(t, i)
        i = self.skip_attrs(t, i)
        # optional function type "(...)" for varargs
        if t[i][1] == "(":
            d = 0
            while True:
                if t[i][1] == "(":
                    d += 1
                elif t[i][1] == ")":
                    d -= 1
                i += 1
                if d == 0:
                    break
        if t[i][0] == "word":
            return ("unsupported", res, "call " + t[i][1])
        callee = t[i][1]
        i += 2
        args = []
        while t[i][1] != ")":
            if t[i][1] == ",":
                i += 1
                continue
            aty, i = self.ptype(t, i)
            i = self.skip_attrs(t, i)
            if aty.k == "meta":
                d = 0
                while not (d == 0 and t[i][1] in (",", ")")):
                    if t[i][1] in "({[":
                        d += 1
                    elif t[i][1] in ")}]":
                        d -= 1
                    i += 1
                continue
            v, i = self.pval(aty, t, i)
            args.append((aty, v))
        normal = None
        if op == "invoke":
            while t[i][1] != "to":
                i += 1
            normal = t[i + 2][1]
        return ("call", res, ty, callee, args, normal)

    # ---- values: ('l', name) local, ('c', const)
    def pval(self, ty, t, i):
        if t[i][0] == "loc":
            return ("l", t[i][1]), i + 1
        c, i = self.pconst(ty, t, i)
        return ("c", c), i

    def pconst(self, ty, t, i):
        k, v = t[i]
        if v in ("inbounds", "nuw", "nusw"):
            return self.pconst(ty, t, i + 1)
        if k == "num":
            if ty.k == "i":
                return ("int", int(v) & ((1 << ty.n) - 1)), i + 1
            if ty.k == "f":
                if v.startswith("0x"):
                    x = struct.unpack(">d", bytes.fromhex(v[2:].rjust(16, "0")))[0]
                else:
                    x = float(v)
                return ("flt", x), i + 1
            raise Unsupported("number of type " + ty.k)
        if v == "true":
            return ("int", 1), i + 1
        if v == "false":
            return ("int", 0), i + 1
        if v == "null":
            return ("null",), i + 1
        if v in ("undef", "poison"):
            return ("undef",), i + 1
        if v == "zeroinitializer":
            return ("zero",), i + 1
        if k == "glob":
            return ("glob", v), i + 1
        if k == "str":
            return ("str", v), i + 1
        if v == "getelementptr":
            j = i + 1
            while t[j][1] in ("inbounds", "nuw", "nusw"):
                j += 1
            bt, j = self.ptype(t, j + 1)
            pty, j = self.ptype(t, j + 1)
            base, j = self.pconst(pty, t, j)
            idx = []
            while t[j][1] == ",":
                if t[j + 1][1] == "inrange":
                    j += 1
                ity, j = self.ptype(t, j + 1)
                x, j = self.pconst(ity, t, j)
                idx.append((ity, ("c", x)))
            return ("gep", bt, base, idx), j + 1
        if v in ("bitcast", "inttoptr", "ptrtoint", "addrspacecast"):
            j = i + 2
            ty2, j = self.ptype(t, j)
            c, j = self.pconst(ty2, t, j)
            _, j = self.ptype(t, j + 1)
            return c, j + 1
        if v in ("[", "<", "{"):
            close = {"[": "]", "<": ">", "{": "}"}[v]
            if v == "<" and t[i + 1][1] == "{":
                c, j = self.pconst(ty, t, i + 1)
                return c, j + 1
            es = []
            j = i + 1
            while t[j][1] != close:
                if t[j][1] == ",":
                    j += 1
                    continue
                ety, j = self.ptype(t, j)
                c, j = self.pconst(ety, t, j)
                es.append((ety, c))
            return ("agg", es), j + 1
        raise Unsupported(f"constant {v}")
