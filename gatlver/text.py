"""The value that a text written by GATL denotes.

A text is a list of pieces: characters, and numbers that were inserted as numbers (their value is kept).  The grammar is the notation
of Clifford algebra that the library documents by its output: sums of products, '^' for outer products of basis vector names
(binding tighter than '*'), angle brackets around what is known at compile time, and named functions.
"""
import re
from fractions import Fraction
from . import sym as S
from .sym import RF
from .oracle import MV


class TextError(Exception):
    pass


LEX = re.compile(r"\s*(?:(\d+(?:\.\d*)?(?:[eE][-+]?\d+)?)|([A-Za-z_]\w*)|(.))", re.S)
FUN = {"abs", "exp", "log", "cos", "sin", "tan", "cosh", "sinh", "tanh", "sqrt", "pow"}


def lex(pieces):
    out = []
    prev = None
    text = ""
    glue = False          # is the next character glued to a number just inserted?

    def flush(t, after_num):
        if after_num and t and (t[0].isalnum() or t[0] in "._"):
            raise TextError("characters glued to a number: " + t[:20])
        i = 0
        while i < len(t):
            m = LEX.match(t, i)
            if not m or m.end() == i:
                break
            if m.group(1):
                out.append(("num", RF.const(Fraction(m.group(1)))))
            elif m.group(2):
                out.append(("name", m.group(2)))
            elif m.group(3) and not m.group(3).isspace():
                out.append(("op", m.group(3)))
            i = m.end()
    for p in pieces + [None]:
        if isinstance(p, str):
            text += p
            continue
        flush(text, glue)
        if p is not None:
            if (text and (text[-1].isalnum() or text[-1] in "._")) or (not text and glue):
                raise TextError("a number glued to what precedes it: " + text[-20:])
            out.append(("num", p))
            glue = True
        text = ""
    return out


class Parser:
    def __init__(self, toks, sp, names):
        self.t, self.k, self.sp = toks, 0, sp
        self.names = {n: 1 << i for i, n in enumerate(names)}

    def peek(self):
        return self.t[self.k] if self.k < len(self.t) else ("end", "")

    def op(self, c):
        if self.peek() == ("op", c):
            self.k += 1
            return True
        return False

    def need(self, c):
        if not self.op(c):
            raise TextError(f"'{c}' expected, {str(self.peek()[1])[:20]!r} found")

    def sum(self):
        m = self.term()
        while True:
            if self.op("+"):
                m = m + self.term()
            elif self.op("-"):
                m = m - self.term()
            else:
                return m

    def term(self):
        m = self.blade()
        while self.op("*"):
            x = self.blade()
            m = m.gp(x)
        return m

    def blade(self):
        if self.op("-"):
            return -self.blade()
        m = self.atom()
        while self.op("^"):
            m = m.op(self.atom())
        return m

    def scalar(self, m):
        for b, v in m.d.items():
            if b and not v.is_zero():
                raise TextError("a function of something that is not a number")
        return m.get(0)

    def atom(self):
        k, v = self.peek()
        if k == "num":
            self.k += 1
            return MV(self.sp, {0: MV.lift(v)})
        if k == "name":
            self.k += 1
            if v in self.names:
                return MV(self.sp, {self.names[v]: S.ONE})
            if v in FUN:
                self.need("(")
                a = [self.scalar(self.sum())]
                while self.op(","):
                    a.append(self.scalar(self.sum()))
                self.need(")")
                if len(a) != (2 if v == "pow" else 1):
                    raise TextError("arguments of " + v)
                f = S.s_abs(a[0]) if v == "abs" else S.s_fun(v, *a)
                return MV(self.sp, {0: f})
            raise TextError("unknown name " + v)
        for a, b in (("(", ")"), ("<", ">"), ("[", "]")):
            if self.op(a):
                m = self.sum()
                self.need(b)
                return m
        raise TextError(f"{str(v)[:20]!r} where a value is expected")


def meaning(pieces, sp, names):
    """Components of the multivector that the text denotes."""
    p = Parser(lex(list(pieces)), sp, names)
    m = p.sum()
    if p.peek()[0] != "end":
        raise TextError(f"text after the expression: {str(p.peek()[1])[:20]!r}")
    return m.clean() or m
