"""Recursive descent parser for the Rust subset zod is written in (plus interpolated holes)."""
from rlex import Tok, lex


class ParseError(Exception):
    pass


class N:
    """AST node: kind plus attributes."""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __repr__(self):
        return "%s(%s)" % (self.kind, ", ".join("%s=%r" % (k, v) for k, v in self.__dict__.items()
                                                if k not in ("kind", "line")))


KEYWORDS = {"as", "break", "const", "continue", "else", "enum", "extern", "false", "fn", "for", "if",
            "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "static",
            "struct", "trait", "true", "type", "unsafe", "use", "where", "while", "async",
            "await", "dyn"}

BINPREC = {"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, ">": 3, "<=": 3, ">=": 3, "|": 4, "^": 5, "&": 6,
           "<<": 7, ">>": 7, "+": 8, "-": 8, "*": 9, "/": 9, "%": 9}
ASSIGNOPS = {"+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "<<=", ">>="}

# macros whose arguments are comma separated expressions
EXPR_MACROS = {"format", "print", "println", "eprintln", "write", "writeln", "panic", "vec", "assert",
               "assert_eq", "assert_ne", "debug_assert", "unreachable", "todo", "unimplemented",
               "format_args", "format_ident", "concat", "matches", "debug_assert_eq"}


HOLE_IDS = {}   # text of an identifier which is not known -> its value


class P:
    def __init__(self, toks, parent_line=0):
        self.t = toks
        self.i = 0
        self.pl = parent_line

    # -- token access -----------------------------------------------------
    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else None

    def line(self):
        t = self.peek() or (self.t[-1] if self.t else None)
        return t.line if t is not None else self.pl

    def eof(self):
        return self.i >= len(self.t)

    def next(self):
        t = self.peek()
        if t is None:
            raise ParseError("unexpected end of tokens (line %d)" % self.pl)
        self.i += 1
        return t

    def err(self, msg):
        raise ParseError("%s at line %s near %r" % (msg, self.line(), self.t[max(0, self.i - 3):self.i + 5]))

    def is_p(self, v, o=0):
        t = self.peek(o)
        return t is not None and t.k == "p" and t.v == v

    def is_id(self, v, o=0):
        t = self.peek(o)
        return t is not None and t.k == "id" and t.v == v

    def is_g(self, d, o=0):
        t = self.peek(o)
        return t is not None and t.k == "g" and t.d == d

    def any_id(self, o=0):
        t = self.peek(o)
        return t is not None and t.k == "id"

    def eat_p(self, v):
        if self.is_p(v):
            self.i += 1
            return True
        return False

    def eat_id(self, v):
        if self.is_id(v):
            self.i += 1
            return True
        return False

    def split(self, first):
        """If the current punctuation starts with `first`, split it so that `first` stands alone."""
        t = self.peek()
        if t is not None and t.k == "p" and isinstance(t.v, str) and t.v != first and t.v.startswith(first) \
                and t.v not in ("=>",):
            self.t = self.t[:self.i] + [Tok("p", first, line=t.line), Tok("p", t.v[len(first):], line=t.line)] \
                + self.t[self.i + 1:]
            return True
        return self.is_p(first)

    def expect_p(self, v):
        if not self.eat_p(v):
            self.err("expected `%s`" % v)

    def expect_id(self, v):
        if not self.eat_id(v):
            self.err("expected `%s`" % v)

    def ident(self):
        t = self.next()
        if t.k == "hole" and getattr(t.v, "hole_kind", None) == "ident":
            x = t.v.text()
            if x is not None:
                return x
            x = "\u2039%r\u203a" % (t.v.s,)
            HOLE_IDS[x] = t.v.s
            return x
        if t.k != "id":
            self.i -= 1
            self.err("expected identifier")
        return t.v

    def group(self, d):
        t = self.next()
        if t.k != "g" or t.d != d:
            self.i -= 1
            self.err("expected `%s`" % d)
        return t

    # -- attributes ---------------------------------------------------------
    def attrs(self):
        out = []
        while True:
            if self.is_p("#") and self.is_g("[", 1):
                self.i += 1
                out.append(self.next().v)
            elif self.is_p("#") and self.is_p("!", 1) and self.is_g("[", 2):
                self.i += 2
                out.append(self.next().v)
            else:
                return out

    # -- items ----------------------------------------------------------------
    def file(self):
        items = []
        while not self.eof():
            it = self.item()
            if it is not None:
                items.append(it)
        return items

    def vis(self):
        if self.is_id("pub"):
            self.i += 1
            if self.is_g("(") and self.peek().v and self.peek().v[0].k == "id" and \
                    self.peek().v[0].v in ("crate", "super", "self", "in"):
                self.i += 1
            return True
        if self.peek() is not None and self.peek().k == "hole" and getattr(self.peek().v, "hole_kind", None) == "vis":
            self.i += 1
            return True
        return False

    def item(self):
        attrs = self.attrs()
        if self.eof():
            return None
        line = self.line()
        if self.peek().k == "seq":
            t = self.next()
            return N("spliceitems", seq=t.v, line=line)
        vis = self.vis()
        if self.is_p(";"):
            self.i += 1
            return None
        if self.is_id("use"):
            self.i += 1
            tree = self.use_tree()
            self.expect_p(";")
            return N("use", tree=tree, attrs=attrs, line=line)
        if self.is_id("mod"):
            self.i += 1
            name = self.ident()
            if self.eat_p(";"):
                return N("mod", name=name, items=None, attrs=attrs, line=line)
            g = self.group("{")
            return N("mod", name=name, items=P(g.v, g.line).file(), attrs=attrs, line=line)
        if self.is_id("extern") and self.is_id("crate", 1):
            while not self.eat_p(";"):
                self.i += 1
            return None
        if self.is_id("struct"):
            return self.struct(attrs, line)
        if self.is_id("enum"):
            return self.enum(attrs, line)
        if self.is_id("type"):
            self.i += 1
            name = self.ident()
            gen = self.generics()
            bounds = None
            if self.eat_p(":"):
                bounds = self.bounds()
            ty = None
            if self.eat_p("="):
                ty = self.type()
            self.expect_p(";")
            return N("type", name=name, generics=gen, ty=ty, attrs=attrs, line=line)
        if (self.is_id("const") or self.is_id("static")) and not self.is_id("fn", 1) \
                and not self.is_id("unsafe", 1) and not self.is_id("async", 1):
            self.i += 1
            self.eat_id("mut")
            name = self.ident()
            self.expect_p(":")
            ty = self.type()
            e = None
            if self.eat_p("="):
                e = self.expr()
            self.expect_p(";")
            return N("const", name=name, ty=ty, e=e, attrs=attrs, line=line)
        if self.is_id("macro_rules") and self.is_p("!", 1):
            self.i += 2
            name = self.ident()
            g = self.next()
            self.eat_p(";")
            return N("macro_rules", name=name, toks=g.v, attrs=attrs, line=line)
        if self.is_id("trait") or (self.is_id("unsafe") and self.is_id("trait", 1)):
            self.eat_id("unsafe")
            self.i += 1
            name = self.ident()
            gen = self.generics()
            if self.split(":") and self.eat_p(":"):
                self.bounds()
            self.where()
            g = self.group("{")
            return N("trait", name=name, generics=gen, items=P(g.v, g.line).file(), attrs=attrs, line=line)
        if self.is_id("impl") or (self.is_id("unsafe") and self.is_id("impl", 1)):
            self.eat_id("unsafe")
            self.i += 1
            gen = []
            if self.is_p("<"):
                gen = self.generics()
            self.skip_hole("generics")
            neg = self.eat_p("!")
            t1 = self.type()
            trait = None
            if self.eat_id("for"):
                trait = t1
                t1 = self.type()
            self.skip_hole("generics")
            self.skip_hole("where")
            self.where()
            g = self.group("{")
            return N("impl", generics=gen, trait=trait, ty=t1, items=P(g.v, g.line).file(), attrs=attrs, line=line)
        # fn
        j = 0
        while self.peek(j) is not None and self.peek(j).k == "id" and self.peek(j).v in ("const", "async", "unsafe", "extern"):
            j += 1
            if self.peek(j) is not None and self.peek(j).k == "str":
                j += 1
        if self.is_id("fn", j):
            quals = [self.peek(x).v for x in range(j)]
            self.i += j + 1
            return self.fn(attrs, quals, line)
        # item macro
        save = self.i
        try:
            path = self.path(expr=True)
            if self.eat_p("!"):
                if self.any_id():
                    self.i += 1
                g = self.next()
                if g.k == "g":
                    if g.d != "{":
                        self.expect_p(";")
                    return N("macroitem", path=path, toks=g.v, attrs=attrs, line=line)
        except ParseError:
            pass
        self.i = save
        self.err("unsupported item")

    def skip_hole(self, kind):
        t = self.peek()
        if t is not None and t.k == "hole" and getattr(t.v, "hole_kind", None) == kind:
            self.i += 1
            return True
        return False

    def use_tree(self):
        self.eat_p("::")
        segs = []
        while True:
            if self.is_g("{"):
                g = self.next()
                p = P(g.v, g.line)
                subs = []
                while not p.eof():
                    subs.append(p.use_tree())
                    p.eat_p(",")
                return N("usegroup", prefix=segs, subs=subs)
            if self.eat_p("*"):
                return N("useglob", prefix=segs)
            segs.append(self.ident())
            if self.eat_p("::"):
                continue
            if self.eat_id("as"):
                return N("usename", path=segs, alias=self.ident())
            return N("usename", path=segs, alias=segs[-1])

    def generics(self):
        out = []
        if not self.split("<"):
            return out
        self.expect_p("<")
        while True:
            if self.split(">") and self.eat_p(">"):
                return out
            self.attrs()
            t = self.peek()
            if t.k == "life":
                self.i += 1
                if self.eat_p(":"):
                    while self.peek().k == "life" or self.is_p("+"):
                        self.i += 1
                out.append(N("lparam", name=t.v))
            elif self.is_id("const"):
                self.i += 1
                name = self.ident()
                self.expect_p(":")
                ty = self.type()
                out.append(N("cparam", name=name, ty=ty))
            else:
                name = self.ident()
                b = []
                if self.eat_p(":"):
                    b = self.bounds()
                if self.eat_p("="):
                    self.type()
                out.append(N("tparam", name=name, bounds=b))
            if not self.eat_p(","):
                self.split(">")
                self.expect_p(">")
                return out

    def bounds(self):
        out = []
        while True:
            t = self.peek()
            if t is None:
                return out
            if t.k == "life":
                self.i += 1
                out.append(N("life", name=t.v))
            elif self.is_p("?"):
                self.i += 1
                self.type_path()
            elif self.is_g("("):
                g = self.next()
                out.append(P(g.v).type())
            elif self.is_id("for") and self.is_p("<", 1):
                self.i += 1
                self.generics()
                continue
            elif t.k in ("id", "hole") or self.is_p("::") or self.is_p("<"):
                out.append(self.type_path())
            else:
                return out
            if not self.eat_p("+"):
                return out

    def where(self):
        if not self.eat_id("where"):
            return
        while True:
            if self.eof() or self.is_g("{") or self.is_p(";") or self.is_p("="):
                return
            if self.peek().k == "life":
                self.i += 1
            else:
                if self.is_id("for") and self.is_p("<", 1):
                    self.i += 1
                    self.generics()
                self.type()
            self.expect_p(":")
            self.bounds()
            if not self.eat_p(","):
                return

    def struct(self, attrs, line):
        self.i += 1
        name = self.ident()
        gen = self.generics()
        self.where()
        if self.eat_p(";"):
            return N("struct", name=name, generics=gen, style="unit", fields=[], attrs=attrs, line=line)
        if self.is_g("("):
            g = self.next()
            f = P(g.v, g.line).tuple_fields()
            self.where()
            self.expect_p(";")
            return N("struct", name=name, generics=gen, style="tuple", fields=f, attrs=attrs, line=line)
        g = self.group("{")
        return N("struct", name=name, generics=gen, style="named", fields=P(g.v, g.line).named_fields(),
                 attrs=attrs, line=line)

    def tuple_fields(self):
        out = []
        while not self.eof():
            a = self.attrs()
            self.vis()
            if self.peek().k == "seq":
                out.append(N("splice", seq=self.next().v))
            else:
                out.append(N("field", name=None, ty=self.type(), attrs=a))
            if not self.eat_p(","):
                break
        return out

    def named_fields(self):
        out = []
        while not self.eof():
            a = self.attrs()
            if self.peek().k == "seq":
                out.append(N("splice", seq=self.next().v))
                self.eat_p(",")
                continue
            self.vis()
            name = self.ident()
            self.expect_p(":")
            out.append(N("field", name=name, ty=self.type(), attrs=a))
            if not self.eat_p(","):
                break
        return out

    def enum(self, attrs, line):
        self.i += 1
        name = self.ident()
        gen = self.generics()
        self.where()
        g = self.group("{")
        p = P(g.v, g.line)
        vs = []
        while not p.eof():
            if p.peek().k == "seq":
                vs.append(N("splice", seq=p.next().v))
                p.eat_p(",")
                continue
            vs.append(p.variant())
            if not p.eat_p(","):
                break
        if not p.eof():
            p.err("unexpected token in enum")
        return N("enum", name=name, generics=gen, variants=vs, attrs=attrs, line=line)

    def variant(self):
        a = self.attrs()
        vn = self.ident()
        if self.is_g("("):
            vg = self.next()
            v = N("variant", name=vn, style="tuple", fields=P(vg.v, vg.line).tuple_fields(), attrs=a)
        elif self.is_g("{"):
            vg = self.next()
            v = N("variant", name=vn, style="named", fields=P(vg.v, vg.line).named_fields(), attrs=a)
        else:
            v = N("variant", name=vn, style="unit", fields=[], attrs=a)
        if self.eat_p("="):
            self.expr()
        return v

    def fn(self, attrs, quals, line):
        name = self.ident()
        gen = self.generics()
        g = self.group("(")
        p = P(g.v, g.line)
        params = []
        self_param = None
        while not p.eof():
            p.attrs()
            if p.peek().k == "seq":
                params.append(N("splice", seq=p.next().v))
                p.eat_p(",")
                continue
            # self?
            save = p.i
            ref = False
            mut = False
            life = None
            if p.split("&") and p.eat_p("&"):
                ref = True
                if p.peek() is not None and p.peek().k == "life":
                    life = p.next().v
            if p.eat_id("mut"):
                mut = True
            if p.is_id("self"):
                p.i += 1
                ty = None
                if p.eat_p(":"):
                    ty = p.type()
                self_param = N("selfparam", ref=ref, mut=mut, life=life, ty=ty)
                p.eat_p(",")
                continue
            p.i = save
            pat = p.pattern()
            p.expect_p(":")
            ty = p.type()
            params.append(N("param", pat=pat, ty=ty))
            if not p.eat_p(","):
                break
        ret = None
        if self.eat_p("->"):
            ret = self.type()
        self.where()
        body = None
        if self.is_g("{"):
            bg = self.next()
            body = block_of(bg)
        else:
            self.expect_p(";")
        return N("fn", name=name, generics=gen, self_param=self_param, params=params, ret=ret, body=body,
                 attrs=attrs, quals=quals, line=line)

    # -- types ------------------------------------------------------------------
    def type(self):
        t = self.peek()
        if t is None:
            self.err("expected type")
        if t.k == "hole" and not self.is_p("::", 1):
            if getattr(t.v, "is_type", False) or True:
                self.i += 1
                return N("thole", v=t.v)
        if self.is_g("("):
            g = self.next()
            p = P(g.v, g.line)
            elems = []
            trailing = False
            while not p.eof():
                if p.peek().k == "seq":
                    t = p.next()
                    trailing = p.eat_p(",")
                    elems.append(N("splice", seq=t.v, sep=t.d, trail=trailing))
                    trailing = True
                    continue
                elems.append(p.type())
                trailing = p.eat_p(",")
                if not trailing:
                    break
            if not p.eof():
                p.err("bad type")
            if len(elems) == 1 and not trailing:
                return elems[0]
            return N("ttuple", elems=elems)
        if self.is_g("["):
            g = self.next()
            p = P(g.v, g.line)
            el = p.type()
            if p.eat_p(";"):
                return N("tarray", el=el, n=p.expr())
            return N("tslice", el=el)
        if self.split("&") and self.eat_p("&"):
            life = None
            if self.peek().k == "life":
                life = self.next().v
            mut = self.eat_id("mut")
            return N("tref", mut=mut, life=life, el=self.type())
        if self.eat_p("*"):
            if not self.eat_id("const"):
                self.expect_id("mut")
            return N("tptr", el=self.type())
        if self.eat_p("!"):
            return N("tnever")
        if self.is_id("_"):
            self.i += 1
            return N("tinfer")
        if self.is_id("impl") or self.is_id("dyn"):
            k = self.next().v
            return N("timpl" if k == "impl" else "tdyn", bounds=self.bounds())
        if self.is_id("for") and self.is_p("<", 1):
            self.i += 1
            self.generics()
            return self.type()
        if self.is_id("fn") or (self.is_id("unsafe") and self.is_id("fn", 1)) or self.is_id("extern"):
            while not self.is_id("fn"):
                self.i += 1
            self.i += 1
            g = self.group("(")
            r = None
            if self.eat_p("->"):
                r = self.type()
            return N("tfn", ret=r)
        return self.type_path()

    def type_path(self):
        p = self.path(expr=False)
        if self.is_p("!") and self.peek(1) is not None and self.peek(1).k == "g":
            self.i += 1
            self.next()
            return N("tmacro", path=p)
        return p

    def generic_args(self):
        out = []
        self.split("<")
        self.expect_p("<")
        while True:
            if self.split(">") and self.eat_p(">"):
                return out
            t = self.peek()
            if t is None:
                self.err("unterminated generic arguments")
            if t.k == "life":
                self.i += 1
                out.append(N("life", name=t.v))
            elif t.k == "g" and t.d == "{":
                self.i += 1
                out.append(N("cexpr", e=block_of(t)))
            elif t.k in ("int", "str", "char") or self.is_p("-"):
                out.append(N("cexpr", e=self.unary()))
            elif t.k == "id" and self.is_p("=", 1):
                name = self.ident()
                self.i += 1
                out.append(N("assoc", name=name, ty=self.type()))
            else:
                out.append(self.type())
            if not self.eat_p(","):
                self.split(">")
                self.expect_p(">")
                return out

    def path(self, expr):
        """Path as N('path', qself, qtrait, segs=[(name, generic args or None)], global_)"""
        line = self.line()
        qself = None
        qtrait = None
        glob = False
        segs = []
        if (self.is_p("<") or (self.split("<") and self.is_p("<"))):
            self.expect_p("<")
            qself = self.type()
            if self.eat_id("as"):
                qtrait = self.type_path()
            self.split(">")
            self.expect_p(">")
            self.expect_p("::")
        elif self.peek() is not None and self.peek().k == "hole":
            t = self.next()
            qself = N("thole", v=t.v)
            self.expect_p("::")
        elif self.eat_p("::"):
            glob = True
        while True:
            t = self.peek()
            if t is not None and t.k == "hole" and getattr(t.v, "hole_kind", None) == "ident":
                name = self.ident()
            elif t is None or t.k != "id":
                self.err("expected path segment")
            else:
                self.i += 1
                name = t.v
            args = None
            if expr:
                if self.is_p("::") and self.peek(1) is not None and self.peek(1).k == "p" and \
                        self.peek(1).v in ("<", "<<"):
                    self.i += 1
                    args = self.generic_args()
            else:
                if self.is_p("::") and self.is_p("<", 1):
                    self.i += 1
                if self.is_p("<") or self.is_p("<<"):
                    args = self.generic_args()
                elif self.is_g("(") and name in ("Fn", "FnMut", "FnOnce"):
                    g = self.next()
                    p = P(g.v, g.line)
                    ins = []
                    while not p.eof():
                        if p.peek().k == "seq":
                            ins.append(N("splice", seq=p.next().v))
                            p.eat_p(",")
                            continue
                        ins.append(p.type())
                        if not p.eat_p(","):
                            break
                    r = None
                    if self.eat_p("->"):
                        r = self.type()
                    args = [N("fnsig", ins=ins, ret=r)]
            segs.append((name, args))
            if self.is_p("::") and not (self.is_g("{", 1)) and not self.is_p("*", 1):
                self.i += 1
                continue
            return N("path", qself=qself, qtrait=qtrait, segs=segs, glob=glob, line=line)

    # -- patterns -----------------------------------------------------------------
    def pattern(self):
        self.eat_p("|")
        p = self.pattern1()
        if self.is_p("|"):
            alts = [p]
            while self.eat_p("|"):
                alts.append(self.pattern1())
            return N("por", alts=alts)
        return p

    def pattern1(self):
        t = self.peek()
        if t is None:
            self.err("expected pattern")
        if t.k == "id" and t.v == "_":
            self.i += 1
            return N("pwild")
        if self.is_p(".."):
            self.i += 1
            return N("prest")
        if self.split("&") and self.eat_p("&"):
            self.eat_id("mut")
            return N("pref", p=self.pattern1())
        if t.k in ("str", "char", "int", "float", "bstr") or self.is_p("-"):
            e = self.pat_lit()
            return self.maybe_range(e)
        if t.k == "g" and t.d == "(":
            self.i += 1
            p = P(t.v, t.line)
            elems = []
            trailing = False
            while not p.eof():
                elems.append(p.pattern())
                trailing = p.eat_p(",")
                if not trailing:
                    break
            if len(elems) == 1 and not trailing and elems[0].kind != "prest":
                return elems[0]
            return N("ptuple", elems=elems)
        if t.k == "g" and t.d == "[":
            self.i += 1
            p = P(t.v, t.line)
            elems = []
            while not p.eof():
                elems.append(p.pattern())
                if not p.eat_p(","):
                    break
            return N("pslice", elems=elems)
        if self.is_id("true") or self.is_id("false"):
            self.i += 1
            return N("plit", v=(t.v == "true"))
        if self.is_id("ref") or self.is_id("mut"):
            ref = self.eat_id("ref")
            mut = self.eat_id("mut")
            name = self.ident()
            sub = None
            if self.eat_p("@"):
                sub = self.pattern1()
            return N("pident", name=name, ref=ref, mut=mut, sub=sub)
        if t.k == "hole":
            if self.is_p("::", 1):
                pass
            else:
                self.i += 1
                return N("phole", v=t.v)
        path = self.path(expr=True)
        if self.is_g("("):
            g = self.next()
            p = P(g.v, g.line)
            elems = []
            while not p.eof():
                elems.append(p.pattern())
                if not p.eat_p(","):
                    break
            return N("ptstruct", path=path, elems=elems)
        if self.is_g("{"):
            g = self.next()
            p = P(g.v, g.line)
            fields = []
            rest = False
            while not p.eof():
                p.attrs()
                if p.eat_p(".."):
                    rest = True
                    break
                if p.any_id() and p.is_p(":", 1):
                    name = p.ident()
                    p.i += 1
                    fields.append((name, p.pattern()))
                else:
                    ref = p.eat_id("ref")
                    mut = p.eat_id("mut")
                    name = p.ident()
                    fields.append((name, N("pident", name=name, ref=ref, mut=mut, sub=None)))
                if not p.eat_p(","):
                    break
            return N("pstruct", path=path, fields=fields, rest=rest)
        if len(path.segs) == 1 and path.qself is None and path.segs[0][1] is None and not path.glob:
            name = path.segs[0][0]
            if self.eat_p("@"):
                return N("pident", name=name, ref=False, mut=False, sub=self.pattern1())
            if self.is_p("..=") or self.is_p(".."):
                return self.maybe_range(N("path_e", path=path))
            return N("pname", path=path, name=name)
        return self.maybe_range(N("ppath", path=path))

    def pat_lit(self):
        neg = self.eat_p("-")
        t = self.next()
        if t.k == "path":
            return N("ppath", path=t)
        v = t.v
        return N("plit", v=-v if neg else v, lk=t.k)

    def maybe_range(self, lo):
        if self.is_p("..=") or self.is_p(".."):
            op = self.next().v
            hi = None
            t = self.peek()
            if t is not None and (t.k in ("int", "char", "float") or self.is_p("-")):
                hi = self.pat_lit()
            elif t is not None and t.k == "id" and t.v not in KEYWORDS:
                hi = N("ppath", path=self.path(expr=True))
            return N("prange", lo=lo, hi=hi, incl=op == "..=")
        return lo

    # -- statements / blocks ------------------------------------------------------
    def block_body(self, line):
        stmts = []
        tail = None
        while not self.eof():
            if self.eat_p(";"):
                continue
            l0 = self.line()
            save = self.i
            attrs = self.attrs()
            t = self.peek()
            if t is None:
                break
            if t.k == "seq":
                self.i += 1
                stmts.append(N("splicestmts", seq=t.v, line=l0))
                continue
            if self.is_id("let"):
                self.i += 1
                pat = self.pattern()
                ty = None
                if self.eat_p(":"):
                    ty = self.type()
                e = None
                els = None
                if self.eat_p("="):
                    e = self.expr()
                    if self.eat_id("else"):
                        els = block_of(self.group("{"))
                self.expect_p(";")
                stmts.append(N("let", pat=pat, ty=ty, e=e, els=els, line=l0))
                continue
            if self.starts_item():
                self.i = save
                it = self.item()
                if it is not None:
                    stmts.append(N("itemstmt", item=it, line=l0))
                continue
            e = self.stmt_expr()
            if self.eat_p(";"):
                stmts.append(N("semi", e=e, line=l0))
            elif self.eof():
                tail = e
            elif e.kind in ("if", "match", "while", "loop", "for", "block", "unsafe", "asyncblock") or \
                    (e.kind == "macro" and e.delim == "{") or e.kind == "hole":
                stmts.append(N("semi", e=e, line=l0))
            else:
                self.err("expected `;`")
        return N("block", stmts=stmts, tail=tail, line=line, label=None)

    def starts_item(self):
        t = self.peek()
        if t.k != "id":
            return False
        v = t.v
        if v in ("fn", "struct", "enum", "impl", "trait", "mod", "use", "static", "type", "pub", "macro_rules"):
            if v == "macro_rules":
                return self.is_p("!", 1)
            return True
        if v == "const" and not self.is_g("{", 1) and not self.is_p("|", 1):
            return True
        if v == "async" and self.is_id("fn", 1):
            return True
        if v == "unsafe" and (self.is_id("fn", 1) or self.is_id("impl", 1)):
            return True
        if v == "extern":
            return True
        return False

    def stmt_expr(self):
        """Expression in statement position: block-like expressions end the statement."""
        t = self.peek()
        if t.k == "g" and t.d == "{" or (t.k == "id" and t.v in ("if", "match", "while", "loop", "for", "unsafe")) \
                or (t.k == "life" and self.is_p(":", 1)):
            e = self.primary(False)
            # method call continues the expression
            if self.is_p(".") or self.is_p("?"):
                e = self.postfix(e, False)
                return self.binary_from(e, 0, False)
            return e
        return self.expr()

    # -- expressions ------------------------------------------------------------------
    def expr(self, nostruct=False):
        return self.assign(nostruct)

    def assign(self, ns):
        l0 = self.line()
        if self.is_id("return"):
            self.i += 1
            e = None
            if not self.expr_end():
                e = self.expr(ns)
            return N("return", e=e, line=l0)
        if self.is_id("break"):
            self.i += 1
            lab = None
            if self.peek() is not None and self.peek().k == "life":
                lab = self.next().v
            e = None
            if not self.expr_end():
                e = self.expr(ns)
            return N("break", e=e, label=lab, line=l0)
        if self.is_id("continue"):
            self.i += 1
            lab = None
            if self.peek() is not None and self.peek().k == "life":
                lab = self.next().v
            return N("continue", label=lab, line=l0)
        if self.is_p("|") or self.is_p("||") or self.is_id("move") or \
                (self.is_id("async") and (self.is_p("|", 1) or self.is_p("||", 1) or
                                          (self.is_id("move", 1) and (self.is_p("|", 2) or self.is_p("||", 2))))):
            return self.closure(ns)
        e = self.range(ns)
        if self.is_p("="):
            self.i += 1
            return N("assign", l=e, r=self.expr(ns), line=l0)
        t = self.peek()
        if t is not None and t.k == "p" and t.v in ASSIGNOPS:
            self.i += 1
            return N("assignop", op=t.v[:-1], l=e, r=self.expr(ns), line=l0)
        return e

    def expr_end(self):
        t = self.peek()
        return t is None or (t.k == "p" and t.v in (",", ";", "=>", ")", "]", "}"))

    def closure(self, ns):
        l0 = self.line()
        is_async = self.eat_id("async")
        move = self.eat_id("move")
        params = []
        if self.eat_p("||"):
            pass
        else:
            self.expect_p("|")
            while not self.is_p("|"):
                pat = self.pattern1()
                ty = None
                if self.eat_p(":"):
                    ty = self.type()
                params.append((pat, ty))
                if not self.eat_p(","):
                    break
            self.expect_p("|")
        if self.eat_p("->"):
            self.type()
            body = block_of(self.group("{"))
        else:
            body = self.expr(ns)
        return N("closure", params=params, body=body, move=move, is_async=is_async, line=l0)

    def range(self, ns):
        l0 = self.line()
        if self.is_p("..") or self.is_p("..="):
            op = self.next().v
            hi = None
            if not self.range_end(ns):
                hi = self.binary(0, ns)
            return N("range", lo=None, hi=hi, incl=op == "..=", line=l0)
        e = self.binary(0, ns)
        if self.is_p("..") or self.is_p("..="):
            op = self.next().v
            hi = None
            if not self.range_end(ns):
                hi = self.binary(0, ns)
            return N("range", lo=e, hi=hi, incl=op == "..=", line=l0)
        return e

    def range_end(self, ns):
        return self.expr_end() or (ns and self.is_g("{"))

    def binary(self, minp, ns):
        e = self.unary(ns)
        return self.binary_from(e, minp, ns)

    def binary_from(self, e, minp, ns):
        while True:
            t = self.peek()
            if t is None:
                return e
            if t.k == "id" and t.v == "as":
                if minp > 10:
                    return e
                self.i += 1
                ty = self.type()
                e = N("cast", e=e, ty=ty, line=t.line)
                continue
            if t.k != "p" or t.v not in BINPREC:
                return e
            p = BINPREC[t.v]
            if p <= minp:
                return e
            self.i += 1
            r = self.unary(ns)
            # `as` and tighter operators first
            r = self.binary_from(r, p, ns)
            e = N("bin", op=t.v, l=e, r=r, line=t.line)

    def unary(self, ns=False):
        l0 = self.line()
        if self.is_p("&&"):
            self.split("&")
        if self.eat_p("&"):
            mut = self.eat_id("mut")
            return N("ref", mut=mut, e=self.unary(ns), line=l0)
        if self.eat_p("*"):
            return N("deref", e=self.unary(ns), line=l0)
        if self.eat_p("!"):
            return N("not", e=self.unary(ns), line=l0)
        if self.eat_p("-"):
            return N("neg", e=self.unary(ns), line=l0)
        if self.is_id("let"):
            self.i += 1
            pat = self.pattern()
            self.expect_p("=")
            e = self.binary(2, True)
            return N("letcond", pat=pat, e=e, line=l0)
        e = self.primary(ns)
        return self.postfix(e, ns)

    def postfix(self, e, ns):
        while True:
            t = self.peek()
            if t is None:
                return e
            l0 = t.line
            if self.is_p("?"):
                self.i += 1
                e = N("try", e=e, line=l0)
            elif self.is_g("("):
                g = self.next()
                e = N("call", f=e, args=P(g.v, g.line).args(), line=l0)
            elif self.is_g("["):
                g = self.next()
                p = P(g.v, g.line)
                e = N("index", e=e, i=p.expr(), line=l0)
            elif self.is_p("."):
                self.i += 1
                t = self.next()
                if t.k == "int":
                    e = N("field", e=e, name=str(t.v), line=l0)
                elif t.k == "float":
                    for part in repr(t.v).split("."):
                        e = N("field", e=e, name=part, line=l0)
                elif t.k == "hole" and getattr(t.v, "hole_kind", None) == "ident" and (self.is_g("(") or self.is_p("::")):
                    self.i -= 1
                    name = self.ident()
                    args = None
                    if self.is_p("::"):
                        self.i += 1
                        args = self.generic_args()
                    g = self.next()
                    e = N("mcall", e=e, name=name, generics=args, args=P(g.v, g.line).args(), line=l0)
                elif t.k == "hole":
                    e = N("fieldhole", e=e, v=t.v, line=l0)
                elif t.k == "id" and t.v == "await":
                    e = N("await", e=e, line=l0)
                elif t.k == "id":
                    name = t.v
                    args = None
                    if self.is_p("::"):
                        self.i += 1
                        args = self.generic_args()
                    if self.is_g("("):
                        g = self.next()
                        e = N("mcall", e=e, name=name, generics=args, args=P(g.v, g.line).args(), line=l0)
                    else:
                        e = N("field", e=e, name=name, line=l0)
                else:
                    self.err("bad postfix")
            else:
                return e

    def args(self):
        out = []
        while not self.eof():
            self.attrs()
            if self.peek().k == "seq":
                out.append(N("splice", seq=self.next().v))
            else:
                out.append(self.expr())
            if not self.eat_p(","):
                break
        if not self.eof():
            self.err("unexpected token in arguments")
        return out

    def primary(self, ns):
        t = self.peek()
        if t is None:
            self.err("expected expression")
        l0 = t.line
        if t.k in ("str", "char", "int", "float", "bstr"):
            self.i += 1
            return N("lit", v=t.v, lk=t.k, suffix=t.suffix, line=l0)
        if t.k == "hole" and not self.is_p("::", 1):
            self.i += 1
            return N("hole", v=t.v, line=l0)
        if t.k == "life" and self.is_p(":", 1):
            self.i += 2
            e = self.primary(ns)
            e.label = t.v
            return e
        if t.k == "g":
            if t.d == "(":
                self.i += 1
                p = P(t.v, t.line)
                elems = []
                trailing = False
                while not p.eof():
                    if p.peek().k == "seq":
                        elems.append(N("splice", seq=p.next().v))
                    else:
                        elems.append(p.expr())
                    trailing = p.eat_p(",")
                    if not trailing:
                        break
                if not p.eof():
                    p.err("unexpected token in tuple")
                if len(elems) == 1 and not trailing:
                    return N("paren", e=elems[0], line=l0)
                return N("tuple", elems=elems, line=l0)
            if t.d == "[":
                self.i += 1
                p = P(t.v, t.line)
                if p.eof():
                    return N("array", elems=[], line=l0)
                if p.peek().k == "seq":
                    first = N("splice", seq=p.next().v)
                else:
                    first = p.expr()
                if p.eat_p(";"):
                    return N("repeat", e=first, n=p.expr(), line=l0)
                elems = [first]
                while p.eat_p(","):
                    if p.eof():
                        break
                    if p.peek().k == "seq":
                        elems.append(N("splice", seq=p.next().v))
                    else:
                        elems.append(p.expr())
                if not p.eof():
                    p.err("unexpected token in array")
                return N("array", elems=elems, line=l0)
            if t.d == "{":
                self.i += 1
                return block_of(t)
            if t.d == "":
                self.i += 1
                return N("paren", e=P(t.v, t.line).expr(), line=l0)
        if t.k == "p" and t.v in ("|", "||"):
            return self.closure(ns)
        if t.k == "id":
            v = t.v
            if v in ("true", "false"):
                self.i += 1
                return N("lit", v=(v == "true"), lk="bool", suffix=None, line=l0)
            if v == "if":
                self.i += 1
                c = self.expr(nostruct=True)
                th = block_of(self.group("{"))
                el = None
                if self.eat_id("else"):
                    if self.is_id("if"):
                        el = self.primary(False)
                    else:
                        el = block_of(self.group("{"))
                return N("if", c=c, th=th, el=el, line=l0)
            if v == "match":
                self.i += 1
                e = self.expr(nostruct=True)
                g = self.group("{")
                return N("match", e=e, arms=P(g.v, g.line).arms(), line=l0)
            if v == "while":
                self.i += 1
                c = self.expr(nostruct=True)
                return N("while", c=c, body=block_of(self.group("{")), line=l0, label=None)
            if v == "loop":
                self.i += 1
                return N("loop", body=block_of(self.group("{")), line=l0, label=None)
            if v == "for":
                self.i += 1
                pat = self.pattern()
                self.expect_id("in")
                e = self.expr(nostruct=True)
                return N("for", pat=pat, e=e, body=block_of(self.group("{")), line=l0, label=None)
            if v == "unsafe" and self.is_g("{", 1):
                self.i += 1
                return block_of(self.group("{"))
            if v == "async" and (self.is_g("{", 1) or (self.is_id("move", 1) and self.is_g("{", 2))):
                self.i += 1
                mv = self.eat_id("move")
                return N("asyncblock", body=block_of(self.group("{")), move=mv, line=l0)
            if v in ("return", "break", "continue"):
                return self.assign(ns)
            if v in ("move", "async"):
                return self.closure(ns)
        if t.k == "id" or self.is_p("::") or self.is_p("<") or self.is_p("<<") or t.k == "hole":
            path = self.path(expr=True)
            if self.is_p("!") and self.peek(1) is not None and self.peek(1).k == "g" and not self.is_p("!=", 0):
                self.i += 1
                g = self.next()
                return macro_node(path, g, l0)
            if self.is_g("{") and not ns and self.looks_struct(path):
                g = self.next()
                return self.struct_lit(path, g, l0)
            return N("pathe", path=path, line=l0)
        self.err("unsupported expression")

    def looks_struct(self, path):
        name = path.segs[-1][0]
        g = self.peek()
        s = name if isinstance(name, str) else "X"
        if not (s[:1].isupper() or s == "Self" or path.qself is not None):
            # could still be an enum struct variant with a lower-case (raw) name
            if len(path.segs) < 2:
                return False
        if not g.v:
            return True
        a = g.v[0]
        if a.k == "p" and a.v == "..":
            return True
        if a.k == "p" and a.v == "#":
            return True
        if a.k == "seq":
            return True
        if a.k == "id" or a.k == "int":
            if len(g.v) == 1:
                return True
            b = g.v[1]
            return b.k == "p" and b.v in (":", ",")
        return False

    def struct_lit(self, path, g, line):
        p = P(g.v, g.line)
        fields = []
        base = None
        while not p.eof():
            p.attrs()
            if p.eat_p(".."):
                base = p.expr()
                break
            t = p.next()
            name = str(t.v) if t.k == "int" else t.v
            if p.eat_p(":"):
                fields.append((name, p.expr()))
            else:
                fields.append((name, N("pathe", path=N("path", qself=None, qtrait=None, segs=[(name, None)],
                                                        glob=False, line=line), line=line)))
            if not p.eat_p(","):
                break
        if not p.eof():
            p.err("bad struct literal")
        return N("structlit", path=path, fields=fields, base=base, line=line)

    def arms(self):
        out = []
        while not self.eof():
            self.attrs()
            if self.peek().k == "seq":
                out.append(N("splicearms", seq=self.next().v))
                self.eat_p(",")
                continue
            pat = self.pattern()
            guard = None
            if self.eat_id("if"):
                guard = self.expr()
            self.expect_p("=>")
            if self.is_g("{"):
                e = block_of(self.next())
                if self.is_p(".") or self.is_p("?"):
                    e = self.postfix(e, False)
                self.eat_p(",")
            else:
                e = self.expr()
                if not self.eat_p(","):
                    if not self.eof():
                        self.err("expected `,` in match")
            out.append(N("arm", pat=pat, guard=guard, e=e))
        return out


def block_of(g):
    b = P(g.v, g.line).block_body(g.line)
    return b


def macro_node(path, g, line):
    return N("macro", path=path, name=path.segs[-1][0], toks=g.v, delim=g.d, line=line, parsed=None)


def parse_exprs(toks, line=0):
    """Comma separated expressions (allowing `name = expr`) of a macro call."""
    p = P(toks, line)
    out = []
    while not p.eof():
        if p.peek().k == "seq":
            out.append(N("splice", seq=p.next().v))
        elif p.any_id() and p.is_p("=", 1):
            name = p.ident()
            p.i += 1
            out.append(N("named", name=name, e=p.expr()))
        else:
            out.append(p.expr())
        if p.eat_p(","):
            continue
        if p.eat_p(";"):
            out.append(N("semisep"))
            continue
        break
    if not p.eof():
        p.err("unexpected token in macro arguments")
    return out


def parse_source(text):
    return P(lex(text)).file()
