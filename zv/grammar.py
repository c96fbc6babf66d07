"""A recogniser of the part of TypeScript which is generated, over texts with holes.

A text is a sequence of constant characters, holes and repetitions.  A hole stands for an arbitrary text of a class:
  expr    a member or call expression             type    a type
  object  a plain object type                     key     an object key
  lit     a string literal                        ident   an identifier (by assumption, or declared by Rust)
  module  complete statements
What stands inside of a repetition is checked for one arbitrary element.  Line ends count where the language lets them
end a statement.  The recogniser accepts less than TypeScript does; what it does not know is Unsupported, what can be no
TypeScript at all is a Mismatch.
"""
import re
import z3
from core import *
import ts
from ts import Mismatch

RESERVED = ("break case catch class const continue debugger default delete do else enum export extends false finally for "
            "function if import in instanceof new null return super switch this throw true try typeof var void while with "
            "implements interface let package private protected public static yield await arguments eval").split()
VALUES = {"null", "true", "false", "this", "arguments"}      # usable in expressions though reserved
TYPES = {"null", "true", "false", "void", "this"}

CLASSES = {"inline_schema": "expr", "schema": "expr", "inline": "type", "type_def": "type", "res": "type",
           "key": "key", "strlit": "lit", "ns_name": "ident", "cname": "ident", "reg_name": "ident", "option": "ident",
           "prelude": "module", "decl": "module", "docs": "comment", "NAME": "ident"}
IDENT = re.compile(r"[A-Za-z_$\u0080-\uffff][\w$\u0080-\uffff]*\Z")
NUMBER = re.compile(r"(0[xX][0-9a-fA-F]+|[0-9]+([eE][0-9]+)?)n?\Z")
CLOSE = {"(": ")", "[": "]", "{": "}", "<": ">"}


def bad(msg):
    raise Mismatch("not well-formed: " + msg)


class Toks:
    def __init__(self, items):
        self.t = items
        self.i = 0

    def line(self):
        """Skip line ends; whether there was one."""
        seen = False
        while self.i < len(self.t) and self.t[self.i] in (("n",),):
            self.i += 1
            seen = True
        return seen

    def peek(self, k=0):
        self.line()
        return self.t[self.i + k] if self.i + k < len(self.t) else ("end",)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def at(self, p):
        return self.peek() == ("p", p)

    def eat(self, p):
        if self.at(p):
            self.i += 1
            return True
        return False

    def expect(self, p):
        if not self.eat(p):
            bad("%s instead of %s" % (show(self.peek()), p))

    def done(self):
        return self.peek() == ("end",)


def show(t):
    return "the end" if t == ("end",) else ts.show_items([t]) if t[0] != "n" else "a line end"


class Grammar:
    def __init__(self, it, classes=None):
        self.it, self.ctx = it, it.ctx
        self.T = ts.TS(it)
        self.T.lines = True
        self.classes = dict(CLASSES, **(classes or {}))

    def is_object(self, hole):
        return False

    # ---- tokens
    def toks(self, s):
        out = []
        for p in s.parts:
            k = self.classes.get(p.fn) if isinstance(p, Hole) else None
            out += [" "] if k == "comment" else [" ", p, " "] if k == "module" else [p]
        items = []
        for x in self.T.tokens(S(*out)):
            if x[0] == "c":
                for p in x[1]:
                    if not isinstance(p, str) and self.cls(p) != "ident":
                        raise Mismatch("an arbitrary text in a comment", False)
                if any("\n" in p for p in x[1] if isinstance(p, str)):
                    items.append(("n",))
                continue
            if x[0] == "x":
                raise Unsupported("part of a text: %r" % (x[1],))
            items.append(x)
        return Toks(items)

    def cls(self, h):
        if not isinstance(h, Hole):
            raise Unsupported("part of a text: %r" % (h,))
        c = self.classes.get(h.fn)
        if c is None and h.fn.startswith("mapkey:"):
            c = "ident"
        if c is None:
            raise Mismatch("an arbitrary text is used unquoted: %r" % (h,), False)
        return c

    def only(self, w):
        """The class of a word which is one hole."""
        if w[0] == "w" and len(w[1]) == 1 and isinstance(w[1][0], Hole):
            return self.cls(w[1][0])
        return None

    def const(self, w):
        if w[0] == "w" and all(isinstance(p, str) for p in w[1]):
            return "".join(w[1])
        return None

    def is_ident(self, w, allow=()):
        """Whether a word is an identifier which is not reserved."""
        if w[0] != "w":
            return False
        c = self.const(w)
        if c is not None:
            return bool(IDENT.match(c)) and (c not in RESERVED or c in allow)
        first = w[1][0]
        if isinstance(first, str) and first[0].isdigit():
            bad("an identifier begins with a digit: " + show(w))
        rust = False
        for p in w[1]:
            if isinstance(p, str):
                continue
            k = self.cls(p)
            if k == "rust":
                rust = True
            elif k != "ident":
                bad("%s is no identifier" % show(w))
        if rust:
            for r in RESERVED:
                f = self.may_be(w[1], r) if r not in allow else False
                if f is False or self.ctx.must(z3.Not(f) if z3.is_expr(f) else z3.BoolVal(not f)):
                    continue
                bad("%s may be %s" % (show(w), r))
        return True

    def may_be(self, parts, r):
        """Whether a word of Rust identifiers and constants is the constant `r`."""
        parts = list(parts)
        if isinstance(parts[0], str):
            if not r.startswith(parts[0]):
                return False
            r = r[len(parts.pop(0)):]
        if parts and isinstance(parts[-1], str):
            if not r.endswith(parts[-1]):
                return False
            r = r[:len(r) - len(parts.pop())]
        if not r:                                      # no identifier is empty
            return False if parts else True
        return self.it.m.s_eq(S(*parts), S(r))

    def string(self, x):
        if x[1] == "`":
            raise Unsupported("a template literal")
        for p in x[2]:
            if isinstance(p, str):
                if re.search(r"[\n\r]", p):
                    bad("a line end in a literal")
                for m in re.finditer(r"\\(u\{[0-9a-fA-F]{1,6}\}|u[0-9a-fA-F]{4}|x[0-9a-fA-F]{2}|[^ux0-9]|0(?![0-9])|(.))", p):
                    if m.group(2):
                        bad("escape in %s" % show(x))
            elif self.cls(p) not in ("ident", "rust"):
                bad("an arbitrary text is not escaped in a literal: %s" % show(x))

    # ---- lists
    def listed(self, toks, close, item, seps=(",",)):
        """Elements separated by commas, up to the closing bracket; repetitions are checked by an arbitrary element."""
        need = False     # a separator has to come first
        while True:
            if close is not None and toks.eat(close) or close is None and toks.done():
                return
            x = toks.peek()
            if x == ("end",):
                bad("no %s" % close)
            if x[0] == "p" and x[1] in seps:
                if not need:
                    bad("an element is missing before %s" % x[1])
                toks.next()
                need = False
                continue
            if need:
                bad("%s follows an element" % show(x))
            if x[0] == "j":
                sep = x[1].const()
                if sep is not None and sep.strip() in seps and sep.strip():
                    toks.next()
                    self.each(x[2], item)
                    y = toks.peek()
                    if y == ("end",) or y == ("p", close):
                        continue
                    need = self.it.truth(self.ctx.nonempty(x[2]))
                    continue
            item(toks)
            need = True

    def each(self, seq, item):
        """Every text of a sequence is one `item`."""
        for p in self.ctx.norm(seq):
            if isinstance(p, One):
                self.whole(self.it.m.to_s(p.v), item)
                continue

            def go(p=p):
                e = self.ctx.new_elem(p.base, "g")
                for x in p.body(e):
                    if not isinstance(x, One):
                        raise Unsupported("nested list")
                    self.whole(self.it.m.to_s(x.v), item)
            for conds, kind, v in self.ctx.explore(go):
                if kind != "ok":
                    raise Mismatch("%s for some element: %s" % (kind, v))

    def whole(self, s, item):
        t = self.toks(s)
        item(t)
        if not t.done():
            bad("%s follows" % show(t.peek()))

    # ---- expressions
    def expr(self, t):
        if t.at("-") or t.at("+") or t.at("!"):
            t.next()
            return self.expr(t)
        if t.at("("):
            j = t.i
            t.next()
            if t.eat(")") and t.eat("=>"):
                if t.at("{"):
                    return self.block(t)
                return self.expr(t)
            t.i = j
        return self.postfix(t)

    def schema(self, t):
        """An expression which can be followed by a call."""
        self.postfix(t)

    def postfix(self, t):
        self.primary(t)
        while self.suffix(t):
            pass

    def suffix(self, t):
        x = t.peek()
        if x == ("p", "."):
            t.next()
            w = t.next()
            if w[0] != "w" or self.const(w) is not None and not IDENT.match(self.const(w)) or \
                    self.const(w) is None and not self.is_ident(w, RESERVED):
                bad("%s after a dot" % show(w))
            return True
        if x == ("p", "("):
            t.next()
            self.listed(t, ")", self.argument)
            return True
        if x == ("p", "["):
            t.next()
            self.expr(t)
            t.expect("]")
            return True
        if x[0] == "j" and x[1].const() is not None and not x[1].const().strip():
            t.next()
            self.each(x[2], self.suffixes)
            return True
        return False

    def suffixes(self, t):
        while self.suffix(t):
            pass

    def argument(self, t):
        if t.at("."):
            for _ in range(3):
                t.expect(".")
        self.expr(t)

    def primary(self, t):
        x = t.next()
        if x[0] == "w":
            k = self.only(x)
            if k in ("expr", "lit"):
                return
            c = self.const(x)
            if c is not None and NUMBER.match(c):
                y = t.peek()
                z = t.peek(1)
                if y == ("p", ".") and z[0] == "w" and self.const(z) is not None and self.const(z)[:1].isdigit():
                    t.next()
                    t.next()
                return
            if self.is_ident(x, VALUES):
                return
            bad("%s is no expression" % show(x))
        if x[0] == "s":
            return self.string(x)
        if x[0] == "r":
            if any(not isinstance(p, str) for p in x[1]):
                bad("an arbitrary text in a regular expression")
            return
        if x == ("p", "("):
            self.expr(t)
            return t.expect(")")
        if x == ("p", "["):
            return self.listed(t, "]", self.argument)
        if x == ("p", "{"):
            return self.listed(t, "}", self.entry)
        bad("%s is no expression" % show(x))

    def key(self, t):
        x = t.next()
        if x[0] == "s":
            return self.string(x)
        if x[0] == "w":
            if self.only(x) in ("key", "lit"):
                return
            c = self.const(x)
            if c is not None and (IDENT.match(c) or NUMBER.match(c)):
                return
            if c is None and self.is_ident(x, RESERVED):
                return
        bad("%s is no key" % show(x))

    def entry(self, t):
        self.key(t)
        t.expect(":")
        self.expr(t)

    # ---- types
    def type_(self, t):
        if not t.eat("|"):
            t.eat("&")
        while True:
            x = t.peek()
            if x[0] == "j":
                sep = x[1].const()
                if sep is None or sep.strip() not in ("|", "&"):
                    raise Unsupported("part of a type: %s" % show(x))
                t.next()
                if not self.it.truth(self.ctx.nonempty(x[2])):
                    bad("an empty type")
                self.each(x[2], self.type_)
            else:
                self.array(t)
            while self.more(t):
                pass
            if not (t.eat("|") or t.eat("&")):
                return

    def more(self, t):
        """Repeated `& T`."""
        x = t.peek()
        if x[0] == "j" and x[1].const() is not None and not x[1].const().strip():
            t.next()
            self.each(x[2], self.extensions)
            return True
        return False

    def extensions(self, t):
        while not t.done():
            if not (t.eat("&") or t.eat("|")):
                bad("%s follows a type" % show(t.peek()))
            self.array(t)

    def array(self, t):
        self.atom(t)
        while True:
            t_line = t.i
            if t.at("["):
                t.next()
                if not t.at("]"):
                    self.type_(t)
                t.expect("]")
                continue
            t.i = t_line
            return

    def atom(self, t):
        x = t.next()
        if x[0] == "w":
            if self.only(x) in ("type", "object", "lit"):
                return
            c = self.const(x)
            if c is not None and NUMBER.match(c):
                return
            if not self.is_ident(x, TYPES):
                bad("%s is no type" % show(x))
            while t.eat("."):
                w = t.next()
                if not self.is_ident(w, RESERVED):
                    bad("%s after a dot" % show(w))
            if t.eat("<"):
                self.listed(t, ">", self.type_)
            return
        if x[0] == "s":
            return self.string(x)
        if x == ("p", "-"):
            w = t.next()
            if self.const(w) is None or not NUMBER.match(self.const(w)):
                bad("%s after a minus" % show(w))
            return
        if x == ("p", "("):
            self.type_(t)
            return t.expect(")")
        if x == ("p", "["):
            return self.listed(t, "]", self.type_)
        if x == ("p", "{"):
            return self.listed(t, "}", self.member, (",", ";"))
        bad("%s is no type" % show(x))

    def member(self, t):
        self.key(t)
        t.eat("?")
        t.expect(":")
        self.type_(t)

    def object_type(self, t):
        """The body of an interface."""
        x = t.peek()
        if x[0] == "w" and len(x[1]) == 1 and isinstance(x[1][0], Hole) and \
                (self.only(x) == "object" or self.is_object(x[1][0])):
            t.next()
            return
        t.expect("{")
        self.listed(t, "}", self.member, (",", ";"))

    # ---- statements
    def statements(self, t, close, inner):
        while True:
            if close is not None and t.eat(close) or close is None and t.done():
                return
            x = t.peek()
            if x == ("end",):
                bad("no %s" % close)
            if x == ("p", ";"):
                t.next()
                continue
            if x[0] == "j":
                t.next()
                self.repeated(x, t, close, inner)
                continue
            inner(t)

    def repeated(self, x, t, close, inner):
        """Repeated statements."""
        sep = x[1].const()
        if sep is None or sep.strip() not in ("", ";"):
            raise Unsupported("repeated statements")
        ends = ";" in sep or "\n" in sep
        last = t.i >= len(t.t) or t.t[t.i] in (("n",), ("p", ";"), ("p", close))

        def one(u):
            while not u.done():
                if not u.eat(";"):
                    inner(u, ends and last)
        self.each(x[2], one)

    def end(self, t, ended=True):
        """The end of a statement."""
        if t.line() or t.i and t.t[t.i - 1] == ("n",):      # what follows was looked at past the line end
            return
        if t.eat(";") or t.at("}"):
            return
        if t.i >= len(t.t) and ended:
            return
        if t.i >= len(t.t):
            bad("a statement does not end")
        bad("%s follows a statement" % show(t.peek()))

    def statement(self, t, ended=True):
        """A statement in a function."""
        x = t.peek()
        if self.const(x) == "return":
            t.next()
            if t.i < len(t.t) and t.t[t.i] == ("n",):
                bad("a line end after return")
            if not (t.at(";") or t.at("}")):
                self.expr(t)
            return self.end(t, ended)
        self.expr(t)
        self.end(t, ended)

    def block(self, t):
        t.expect("{")
        self.statements(t, "}", self.statement)

    def name(self, t):
        x = t.next()
        if not self.is_ident(x):
            bad("%s is no name" % show(x))

    def declaration(self, t, ended=True):
        """A declaration in a namespace."""
        x = t.peek()
        if self.only(x) == "module":
            t.next()
            return
        if self.const(x) == "export":
            t.next()
            x = t.peek()
        k = self.const(x)
        t.next()
        if k == "const":
            self.name(t)
            if t.eat(":"):
                self.type_(t)
            t.expect("=")
            self.expr(t)
            return self.end(t, ended)
        if k == "type":
            self.name(t)
            t.expect("=")
            self.type_(t)
            return self.end(t, ended)
        if k == "interface":
            self.name(t)
            return self.object_type(t)
        if k == "async":
            if t.i < len(t.t) and t.t[t.i] == ("n",):
                bad("a line end after async")
            k = self.const(t.next())
            if k != "function":
                bad("no function")
        if k == "function":
            self.name(t)
            t.expect("(")
            self.listed(t, ")", self.param)
            if t.eat(":"):
                self.type_(t)
            return self.block(t)
        if k == "namespace":
            self.name(t)
            t.expect("{")
            return self.statements(t, "}", self.declaration)
        bad("%s is no declaration" % show(x))

    def param(self, t):
        self.name(t)
        t.eat("?")
        t.expect(":")
        self.type_(t)

    # ---- texts
    def is_schema(self, s):
        self.whole(s, self.schema)

    def is_type(self, s):
        self.whole(s, self.type_)

    def is_object_type(self, s):
        self.whole(s, self.object_type)

    def is_module(self, s):
        self.statements(self.toks(s), None, self.declaration)
