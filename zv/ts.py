"""Comparison of generated TypeScript text with its specification.

Texts are compared as token trees: white space between tokens does not matter, a trailing comma in a
list does not matter, everything else does.  A list whose length is unknown is compared element by
element for one arbitrary element of the underlying sequence.
"""
import z3
from core import *


class Mismatch(Exception):
    def __init__(self, msg, definite=True):
        self.msg = msg
        self.definite = definite
        super().__init__(msg)


def word(c):
    return c.isalnum() or c in "_$" or ord(c) > 127


class TS:
    def __init__(self, it):
        self.it = it
        self.ctx = it.ctx
        self.lines = False     # whether tokens() keeps line ends

    # -- normalisation ------------------------------------------------------------
    def norm(self, s):
        """Resolve joins of known content."""
        out = []
        for p in s.parts:
            if isinstance(p, Join):
                seq = SeqV(self.ctx.norm(p.seq))
                sep = p.sep if isinstance(p.sep, S) else S(p.sep)
                if all(isinstance(q, One) for q in seq.parts):
                    for i, q in enumerate(seq.parts):
                        if i:
                            out.extend(sep.parts)
                        out.extend(self.norm(self.it.m.to_s(q.v)).parts)
                else:
                    if sep.const() == "" and seq.parts:
                        for q in seq.parts:
                            if isinstance(q, One):
                                out.extend(self.norm(self.it.m.to_s(q.v)).parts)
                            else:
                                out.append(Join("", SeqV([q])))
                    else:
                        out.append(Join(sep, seq))
            else:
                out.append(p)
        return S(*out)

    # -- tokens ---------------------------------------------------------------------
    def tokens(self, s):
        """Items: ('w', parts) words, ('p', punct), ('s', quote, parts) string literals, ('c', parts) comments,
        ('r', parts) regular expressions, ('j', sep, SeqV), ('x', other)."""
        s = self.norm(s)
        # flatten to a list of characters and opaque parts
        cs = []
        for p in s.parts:
            if isinstance(p, str):
                cs.extend(p)
            else:
                cs.append(p)
        out = []
        i = 0
        n = len(cs)

        def isstr(j, t):
            return all(j + k < n and cs[j + k] == t[k] for k in range(len(t)))
        while i < n:
            c = cs[i]
            if isinstance(c, str):
                if c.isspace():
                    if self.lines and c in "\n\r\u2028\u2029" and out and out[-1] != ("n",):
                        out.append(("n",))
                    i += 1
                    continue
                if isstr(i, "/*"):
                    j = i + 2
                    body = []
                    while j < n and not isstr(j, "*/"):
                        body.append(cs[j])
                        j += 1
                    if j >= n:
                        raise Mismatch("unterminated comment")
                    out.append(("c", merge(body)))
                    i = j + 2
                    continue
                if isstr(i, "//"):
                    j = i
                    body = []
                    while j < n and cs[j] != "\n":
                        body.append(cs[j])
                        j += 1
                    out.append(("c", merge(body)))
                    i = j
                    continue
                if c in "\"'`":
                    j = i + 1
                    body = []
                    while j < n and cs[j] != c:
                        body.append(cs[j])
                        if cs[j] == "\\" and j + 1 < n:
                            j += 1
                            body.append(cs[j])
                        j += 1
                    if j >= n:
                        raise Mismatch("unterminated string")
                    out.append(("s", c, merge(body)))
                    i = j + 1
                    continue
                if c == "/" and out and out[-1] in (("p", "("), ("p", ",")):
                    j = i + 1
                    body = []
                    cls = False
                    while j < n and (cls or cs[j] != "/"):
                        if cs[j] == "[":
                            cls = True
                        if cs[j] == "]":
                            cls = False
                        body.append(cs[j])
                        if cs[j] == "\\":
                            j += 1
                            body.append(cs[j])
                        j += 1
                    if j >= n:
                        raise Mismatch("unterminated regular expression")
                    j += 1
                    while j < n and isinstance(cs[j], str) and word(cs[j]):
                        body.append(cs[j])
                        j += 1
                    out.append(("r", merge(body)))
                    i = j
                    continue
            if (isinstance(c, str) and word(c)) or isinstance(c, Hole):
                j = i
                body = []
                while j < n and (isinstance(cs[j], Hole) or isinstance(cs[j], str) and word(cs[j])):
                    body.append(cs[j])
                    j += 1
                out.append(("w", merge(body)))
                i = j
                continue
            if isinstance(c, Join):
                out.append(("j", c.sep if isinstance(c.sep, S) else S(c.sep), c.seq))
                i += 1
                continue
            if isinstance(c, str):
                if isstr(i, "=>"):
                    out.append(("p", "=>"))
                    i += 2
                    continue
                out.append(("p", c))
                i += 1
                continue
            out.append(("x", c))
            i += 1
        return out

    OPEN = {"(": ")", "[": "]", "{": "}"}

    def tree(self, items):
        """Nested groups; each group is a list of elements separated by commas."""
        pos = [0]

        def group(close):
            elems = [[]]
            while True:
                if pos[0] >= len(items):
                    if close is None:
                        return elems
                    raise Mismatch("unbalanced brackets")
                t = items[pos[0]]
                pos[0] += 1
                if t[0] == "p":
                    if t[1] == close:
                        return elems
                    if t[1] in ")]}":
                        raise Mismatch("unbalanced brackets")
                    if t[1] in self.OPEN:
                        elems[-1].append(("g", t[1], self.finish(group(self.OPEN[t[1]]))))
                        continue
                    if t[1] == ",":
                        elems.append([])
                        continue
                elems[-1].append(t)
        return self.finish(group(None))

    def finish(self, elems):
        """Resolve comma joins which are whole elements; drop one trailing empty element."""
        ctx = self.ctx
        out = []
        n = len(elems)
        for i, e in enumerate(elems):
            if len(e) == 1 and e[0][0] == "j" and e[0][1].const() is not None and e[0][1].const().strip() == ",":
                parts = e[0][2].parts
                if i < n - 1 and not any(isinstance(p, One) for p in parts):
                    if not self.it.truth(ctx.nonempty(e[0][2])):
                        out.append(("e", []))
                        continue
                    parts = ctx.norm(e[0][2])
                for p in parts:
                    if isinstance(p, One):
                        t = self.tree(self.tokens(self.it.m.to_s(p.v)))
                        out.extend(t if t else [("e", [])])
                    else:
                        out.append(("m", p))
                continue
            out.append(("e", e))
        if out and out[-1] == ("e", []):
            out.pop()
        return out

    # -- comparison -------------------------------------------------------------------
    def equal(self, a, b):
        """Raises Mismatch unless the texts denote the same tokens (on the current path)."""
        self.elems(self.tree(self.tokens(a)), self.tree(self.tokens(b)))

    def elems(self, xs, ys):
        if len(xs) != len(ys):
            definite = all(x[0] == "e" for x in xs) and all(y[0] == "e" for y in ys)
            raise Mismatch("different number of elements: %s / %s" % (show(xs), show(ys)), definite)
        for x, y in zip(xs, ys):
            if x[0] != y[0]:
                raise Mismatch("different structure: %s / %s" % (show([x]), show([y])), False)
            if x[0] == "e":
                self.items(x[1], y[1])
            else:
                self.comps(x[1], y[1])

    def items(self, xs, ys):
        if len(xs) != len(ys):
            d = not any(t[0] == "j" for t in xs + ys)
            raise Mismatch("%s / %s" % (show_items(xs), show_items(ys)), d)
        for x, y in zip(xs, ys):
            if x[0] != y[0]:
                raise Mismatch("%s / %s" % (show_items([x]), show_items([y])), x[0] != "j" and y[0] != "j")
            if x[0] == "g":
                if x[1] != y[1]:
                    raise Mismatch("bracket %s / %s" % (x[1], y[1]))
                self.elems(x[2], y[2])
            elif x[0] == "p":
                if x[1] != y[1]:
                    raise Mismatch("%s / %s" % (show_items(xs), show_items(ys)))
            elif x[0] == "j":
                if squeeze(x[1]) != squeeze(y[1]):
                    raise Mismatch("separators %r / %r" % (x[1], y[1]), False)
                self.seqs(x[2], y[2])
            elif x[0] == "x":
                if x[1] is not y[1]:
                    raise Mismatch("%r / %r" % (x[1], y[1]), False)
            elif x[0] == "c":
                self.parts(tuple(strip_lines(x[1])), tuple(strip_lines(y[1])))
            else:
                if x[0] == "s" and x[1] != y[1] and set((x[1], y[1])) != set("\"'"):
                    raise Mismatch("quotes %s / %s" % (x[1], y[1]))
                self.parts(x[-1], y[-1])

    def parts(self, xs, ys):
        if len(xs) != len(ys):
            raise Mismatch("%r / %r" % (S(*xs), S(*ys)))
        for x, y in zip(xs, ys):
            if isinstance(x, str) or isinstance(y, str):
                if not (isinstance(x, str) and isinstance(y, str) and x == y):
                    if isinstance(x, str) and isinstance(y, str):
                        raise Mismatch("%r / %r" % (x, y))
                    if not self.it.truth(self.it.m.s_eq(S(x), S(y))):
                        raise Mismatch("%r / %r" % (x, y))
            elif isinstance(x, Hole) and isinstance(y, Hole):
                self.hole(x, y)
            elif x is not y:
                raise Mismatch("%r / %r" % (x, y), False)

    def hole(self, x, y):
        if x.fn != y.fn:
            raise Mismatch("%r / %r" % (x, y))
        if len(x.args) != len(y.args):
            raise Mismatch("%r / %r" % (x, y))
        for a, b in zip(x.args, y.args):
            if isinstance(a, (z3.ExprRef, int)) and isinstance(b, (z3.ExprRef, int)):
                if not self.ctx.must(a == b):
                    raise Mismatch("%r / %r" % (x, y))
            elif isinstance(a, S) and isinstance(b, S):
                self.strict(a, b)
            elif repr(a) != repr(b):
                raise Mismatch("%r / %r" % (x, y))

    def strict(self, a, b):
        """Same string, exactly."""
        a, b = self.norm(a), self.norm(b)
        if len(a.parts) == len(b.parts):
            for x, y in zip(a.parts, b.parts):
                if isinstance(x, str) and isinstance(y, str):
                    if x != y:
                        raise Mismatch("%r / %r" % (a, b))
                elif isinstance(x, Hole) and isinstance(y, Hole):
                    self.hole(x, y)
                elif isinstance(x, Join) and isinstance(y, Join):
                    sx = x.sep if isinstance(x.sep, S) else S(x.sep)
                    sy = y.sep if isinstance(y.sep, S) else S(y.sep)
                    if sx.parts != sy.parts:
                        raise Mismatch("separators %r / %r" % (sx, sy), False)
                    self.seqs(x.seq, y.seq, self.strict)
                else:
                    raise Mismatch("%r / %r" % (a, b), False)
            return
        raise Mismatch("%r / %r" % (a, b), not any(isinstance(p, (Join, Fold)) for p in a.parts + b.parts))

    def seqs(self, a, b, cmp=None):
        xs, ys = self.ctx.norm(a), self.ctx.norm(b)
        if len(xs) != len(ys):
            raise Mismatch("different number of parts", all(isinstance(p, One) for p in xs + ys))
        for x, y in zip(xs, ys):
            if isinstance(x, One) != isinstance(y, One):
                raise Mismatch("different structure", False)
            if isinstance(x, One):
                (cmp or self.equal)(self.it.m.to_s(x.v), self.it.m.to_s(y.v))
            else:
                self.comps(x, y, cmp)

    def comps(self, a, b, cmp=None):
        ctx = self.ctx
        cmp = cmp or self.equal
        if not ctx._same_base(a.base, b.base):
            raise Mismatch("lists over different sequences (%s / %s)" % (a.base.fn, b.base.fn), False)
        if a.rev != b.rev:
            raise Mismatch("different order", False)
        for conds, kind, v in ctx.explore(lambda: self.at(a, b, cmp)):
            if kind == "ok":
                if isinstance(v, Mismatch):
                    raise v
            else:
                raise Mismatch("%s while producing an element" % kind, False)

    def at(self, a, b, cmp):
        e = self.ctx.new_elem(a.base, "e")
        try:
            xs, ys = a.body(e), b.body(e)
            if len(xs) != len(ys):
                return Mismatch("an element is %s" % ("extra: %r" % (xs,) if len(xs) > len(ys) else "missing: %r" % (ys,)),
                                True)
            for x, y in zip(xs, ys):
                if isinstance(x, One) and isinstance(y, One):
                    cmp(self.it.m.to_s(x.v), self.it.m.to_s(y.v))
                elif isinstance(x, Comp) and isinstance(y, Comp):
                    self.comps(x, y, cmp)
                else:
                    raise Mismatch("different structure of elements", False)
        except Mismatch as m:
            if getattr(m, "model", None) is None and getattr(self, "model", None) is not None:
                m.model = self.model()
            return m
        return None


def merge(cs):
    out = []
    for c in cs:
        if isinstance(c, str) and out and isinstance(out[-1], str):
            out[-1] += c
        else:
            out.append(c)
    return tuple(out)


def squeeze(s):
    c = s.const()
    return c.strip() if c is not None else repr(s)


def strip_lines(parts):
    out = []
    for p in parts:
        out.append("\n".join(x.strip() for x in p.split("\n")) if isinstance(p, str) else p)
    if out and isinstance(out[0], str):
        out[0] = out[0].lstrip()
    if out and isinstance(out[-1], str):
        out[-1] = out[-1].rstrip()
    return [p for p in out if p != ""]


def show_items(items):
    o = []
    for t in items:
        if t[0] == "g":
            o.append(t[1] + show(t[2]) + TS.OPEN[t[1]])
        elif t[0] == "w":
            o.append("".join(x if isinstance(x, str) else repr(x) for x in t[1]))
        elif t[0] == "s":
            o.append(t[1] + "".join(x if isinstance(x, str) else repr(x) for x in t[2]) + t[1])
        elif t[0] == "j":
            o.append("<join>")
        else:
            o.append(str(t[1]))
    return " ".join(o)


def show(elems):
    return ", ".join(show_items(e[1]) if e[0] == "e" else "<each %s>" % e[1].base.fn for e in elems)
