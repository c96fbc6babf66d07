"""Constant zod schema expressions: parsing, and which numbers they accept."""
import re
import z3
from core import Unsupported
from fractions import Fraction

TOK = re.compile(r"""\s+|(?P<str>"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*')|(?P<num>-?\d[\d_]*n?(?:\.\d+)?(?:[eE][+-]?\d+)?)|(?P<id>[A-Za-z_$][\w$]*)|(?P<re>/(?:[^/\\\[\n]|\\.|\[(?:[^\]\\]|\\.)*\])+/[a-z]*)|(?P<p>[-.(),{}:\[\]])""")


class Bad(Exception):
    """The text is no call chain on a zod constructor."""


def tokens(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Bad("cannot read %r" % s[i:i + 20])
        i = m.end()
        if m.lastgroup:
            out.append((m.lastgroup, m.group()))
    return out


class P:
    def __init__(self, s):
        self.t = tokens(s)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def take(self, v=None, k=None):
        a = self.peek()
        if (v is not None and a[1] != v) or (k is not None and a[0] != k) or a[0] is None:
            raise Bad("expected %s, found %s" % (v or k, a[1]))
        self.i += 1
        return a[1]

    def chain(self):
        """z.a(args).b(args)... as [(name, args)]"""
        self.take("z")
        calls = []
        while self.peek()[1] == ".":
            self.take(".")
            n = self.take(k="id")
            self.take("(")
            args = []
            while self.peek()[1] != ")":
                args.append(self.arg())
                if self.peek()[1] == ",":
                    self.take(",")
            self.take(")")
            calls.append((n, args))
        return calls

    def arg(self):
        k, v = self.peek()
        if k == "num":
            self.i += 1
            return number(v)
        if v == "-":
            self.i += 1
            return -number(self.take(k="num"))
        if k == "str":
            self.i += 1
            return v[1:-1]
        if k == "re":
            self.i += 1
            return ("regex", v)
        if v == "{":
            self.i += 1
            d = {}
            while self.peek()[1] != "}":
                key = self.take()
                key = key.strip("\"'")
                self.take(":")
                d[key] = self.arg()
                if self.peek()[1] == ",":
                    self.take(",")
            self.take("}")
            return d
        if k == "id" and v in ("true", "false"):
            self.i += 1
            return v == "true"
        if v == "z":
            return self.chain()
        raise Bad("argument %s" % v)


def number(v):
    if "n" in v:
        raise Bad("bigint")
    return Fraction(v.replace("_", ""))


def parse(s):
    p = P(s)
    c = p.chain()
    if p.i != len(p.t):
        raise Bad("trailing %s" % (p.peek()[1],))
    if not c:
        raise Bad("no constructor")
    return c


def rat(f):
    return z3.RealVal(str(f.numerator)) / z3.RealVal(str(f.denominator)) if f.denominator != 1 else z3.RealVal(str(f.numerator))


def accepts(calls, x, inf):
    """Formula: z.number()... accepts the number. x: Real, inf: Int (0 finite, 1 +inf, -1 -inf)."""
    if calls[0][0] != "number" or calls[0][1]:
        raise Bad("no number schema")
    fs = []
    for n, a in calls[1:]:
        # an optional message argument changes nothing
        if a and isinstance(a[-1], (str, dict)):
            a = a[:-1]
        ge = lambda v, strict=False: z3.If(inf == 0, x > rat(v) if strict else x >= rat(v), inf == 1)
        le = lambda v, strict=False: z3.If(inf == 0, x < rat(v) if strict else x <= rat(v), inf == -1)
        zero = Fraction(0)
        if n == "int" and not a:
            fs.append(z3.And(inf == 0, z3.IsInt(x)))
        elif n == "finite" and not a:
            fs.append(inf == 0)
        elif n == "nonnegative" and not a:
            fs.append(ge(zero))
        elif n == "positive" and not a:
            fs.append(ge(zero, True))
        elif n == "nonpositive" and not a:
            fs.append(le(zero))
        elif n == "negative" and not a:
            fs.append(le(zero, True))
        elif n in ("gte", "min") and len(a) == 1:
            fs.append(ge(a[0]))
        elif n == "gt" and len(a) == 1:
            fs.append(ge(a[0], True))
        elif n in ("lte", "max") and len(a) == 1:
            fs.append(le(a[0]))
        elif n == "lt" and len(a) == 1:
            fs.append(le(a[0], True))
        elif n == "safe" and not a:
            fs.append(z3.And(ge(Fraction(-(2 ** 53) + 1)), le(Fraction(2 ** 53 - 1))))
        else:
            raise Unsupported("z.number().%s" % n)
    return z3.And(*fs) if fs else z3.BoolVal(True)
