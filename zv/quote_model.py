"""Models of macros: format!, write!, vec!, quote!, format_ident!, panics and deliberate diagnostics."""
import re
import os
import z3
from core import *
from rlex import Tok, lex
from rparse import N, P, parse_exprs
from program import expand_macro


class FmtArgs:
    """format_args!: already rendered text."""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


def split_top(toks, sep=","):
    out = [[]]
    for t in toks:
        if t.k == "p" and t.v == sep:
            out.append([])
        else:
            out[-1].append(t)
    return out


def strip_trailing(toks):
    t = TokV(strip_trailing_comma(toks))
    t.comma = len(t.toks) < len(toks)
    return t


def strip_trailing_comma(toks):
    toks = list(toks)
    while toks and toks[-1].__class__ is Tok and toks[-1].k == "p" and toks[-1].v == ",":
        toks.pop()
    return toks


class Quote:
    def __init__(self, it):
        self.it = it
        self.ctx = it.ctx

    # ------------------------------------------------------------------ dispatch
    def macro(self, n, env, fc, want):
        name = n.name
        if name in ("parse_quote", "parse_quote_spanned"):
            return self.typed((self.m_quote if name == "parse_quote" else self.m_quote_spanned)(n, env, fc), want)
        m = getattr(self, "m_" + str(name), None)
        mac = self.it.prog.find_macro(fc.module, name) if isinstance(name, str) else None
        for lm in reversed(fc.local):
            if name in lm.macros:
                mac = lm.macros[name]
                break
        if mac is not None:
            toks = expand_macro(mac, n.toks)
            p = P(toks)
            try:
                body = block_from(toks)
            except Exception as e:
                raise Unsupported("macro %s: %s" % (name, e))
            return self.it.eval(body, env, fc, want)
        if name == "cfg" and m is None:
            import program
            if any(t.k == "id" and t.v in ("debug_assertions", "test", "not", "any", "all") for t in n.toks) and "feature" not in [t.v for t in n.toks]:
                # either way of building the crate
                return z3.Bool("cfg:" + " ".join(str(t.v) for t in n.toks))
            return program._cfg(n.toks)
        if m is None:
            for h in self.it.extra_methods:
                r = h(self.it, n, "$macro", [env, fc], n, None)
                if r is not NotImplemented:
                    return r
            raise Unsupported("macro %s! (line %s)" % (name, n.line))
        return m(n, env, fc)

    # ------------------------------------------------------------------ formatting
    def literal(self, toks, env, fc):
        """Format string: a literal, a hole or concat!(..)."""
        if len(toks) == 1 and toks[0].k == "str":
            return toks[0].v
        p = P(list(toks))
        e = p.expr()
        if not p.eof():
            raise Unsupported("format string")
        v = self.it.deref(self.it.eval(e, env, fc))
        c = v.const() if isinstance(v, S) else None
        if c is None:
            raise Unsupported("format string is not a literal")
        return c

    def args(self, toks, env, fc):
        """(format string, positional values, named values)"""
        # the first argument
        i = 0
        while i < len(toks) and not (toks[i].k == "p" and toks[i].v == ","):
            i += 1
        fmt = self.literal(toks[:i], env, fc)
        pos, named = [], {}
        rest = toks[i + 1:]
        p = P(list(rest))
        while not p.eof():
            if p.any_id() and p.is_p("=", 1):
                nm = p.next().v
                p.next()
                named[nm] = self.it.eval(p.expr(), env, fc)
            elif p.peek().k == "seq":
                s = self.it.splice_values(p.next().v, env, fc)
                pos.extend(self.it.concrete(s))
            else:
                pos.append(self.it.eval(p.expr(), env, fc))
            if not p.eat_p(","):
                break
        if not p.eof():
            raise Unsupported("format arguments")
        return fmt, pos, named

    def format(self, toks, env, fc):
        if not toks:
            return S()
        fmt, pos, named = self.args(toks, env, fc)
        out = []
        nxt = 0
        i = 0
        lit = ""
        while i < len(fmt):
            c = fmt[i]
            if c == "{":
                if fmt[i + 1] == "{":
                    lit += "{"
                    i += 2
                    continue
                j = fmt.index("}", i)
                body = fmt[i + 1:j]
                i = j + 1
                nm, _, spec = body.partition(":")
                nm = nm.strip()
                if nm == "":
                    v = pos[nxt]
                    nxt += 1
                elif nm.isdigit():
                    v = pos[int(nm)]
                elif nm in named:
                    v = named[nm]
                else:
                    b = env.box(nm)
                    if b is not None:
                        v = b.v
                    else:
                        v = self.it.path_value(P([Tok("id", nm)]).path(expr=True), fc)
                out.append(lit)
                lit = ""
                out.append(self.render(v, spec))
                continue
            if c == "}":
                lit += "}"
                i += 2
                continue
            lit += c
            i += 1
        out.append(lit)
        return S(*out)

    def render(self, v, spec):
        v = self.it.deref(v)
        if spec == "":
            return self.it.m.to_s(v)
        if spec == "x":
            return self.it.m.fmt_hex(v)
        if re.fullmatch("0[1-9][xX]", spec) and isinstance(v, (int, z3.ArithRef)) and not isinstance(v, bool):
            return S(("%" + spec) % v) if isinstance(v, int) else S(Hole(spec, (v,)))
        if spec in ("?", "#?"):
            if isinstance(v, (bool, int)):
                return S(str(v).lower() if isinstance(v, bool) else str(v))
            if isinstance(v, S):
                c = v.const()
                if c is not None and all(32 <= ord(x) < 127 and x not in '"\\' for x in c):
                    return S('"' + c + '"')
                return S(Hole("debug", (v,)))
            return S(Hole("debug", (repr(v),)))
        raise Unsupported("format specification {:%s}" % spec)

    def m_format(self, n, env, fc):
        return self.format(n.toks, env, fc)

    m_alloc_format = m_format

    def m_format_args(self, n, env, fc):
        return self.format(n.toks, env, fc)

    def m_concat(self, n, env, fc):
        return S(*[self.it.m.to_s(self.it.eval(e, env, fc)) for e in parse_exprs(list(n.toks))])

    def m_stringify(self, n, env, fc):
        if len(n.toks) == 1 and n.toks[0].k == "id":
            return S(n.toks[0].v)
        if len(n.toks) == 1 and n.toks[0].k == "hole" and isinstance(n.toks[0].v, Ident):
            return n.toks[0].v.s
        raise Unsupported("stringify!")

    def m_env(self, n, env, fc):
        return S(Hole("env", (repr(n.toks),)))

    def m_include_str(self, n, env, fc):
        t = n.toks[0]
        return S(Hole("include", (str(t.v),)))

    def m_write(self, n, env, fc, nl=""):
        p = P(list(n.toks))
        dst = p.expr()
        p.eat_p(",")
        text = S(self.format(p.t[p.i:], env, fc), nl)
        pl = self.it.place(dst, env, fc)
        while isinstance(pl.get(), RefV):
            pl = pl.get()
        v = pl.get()
        if isinstance(v, StructV) and v.name == "$formatter":
            b = v.fields["box"]
            self.it.write_box(b, S(b.v, text))
            return ok(UNIT)
        if isinstance(v, S):
            pl.set(S(v, text))
            return ok(UNIT)
        raise Unsupported("write! to %r" % (v,))

    def m_writeln(self, n, env, fc):
        return self.m_write(n, env, fc, "\n")

    # ------------------------------------------------------------------ values and control
    def m_vec(self, n, env, fc):
        toks = list(n.toks)
        if any(t.k == "p" and t.v == ";" for t in toks):
            i = [j for j, t in enumerate(toks) if t.k == "p" and t.v == ";"][0]
            v = self.it.eval_tokens(toks[:i], env, fc)
            c = self.it.eval_tokens(toks[i + 1:], env, fc)
            if isinstance(c, int):
                return seq_of([v] * c)
            raise Unsupported("vec![x; n]")
        return self.it.seq_literal(parse_exprs(toks), env, fc)

    def m_matches(self, n, env, fc):
        from interp import Env
        p = P(list(n.toks))
        e = p.expr()
        p.expect_p(",")
        pat = p.pattern()
        v = self.it.eval(e, env, fc)
        e2 = Env(env)
        if not self.it.match(pat, v, e2, fc):
            return False
        if p.eat_id("if"):
            return self.it.cond(p.expr(), e2, fc)
        return True

    def m_panic(self, n, env, fc):
        raise Panic("panic! at line %s" % n.line)

    def m_unreachable(self, n, env, fc):
        raise Panic("unreachable! at line %s" % n.line)

    def m_todo(self, n, env, fc):
        raise Panic("todo! at line %s" % n.line)

    m_unimplemented = m_todo

    def m_assert(self, n, env, fc):
        p = P(list(n.toks))
        if not self.it.cond(p.expr(), env, fc):
            raise Panic("assert! at line %s" % n.line)
        return UNIT

    def m_debug_assert(self, n, env, fc):
        return self.m_assert(n, env, fc)

    def m_assert_eq(self, n, env, fc):
        es = parse_exprs(list(n.toks))
        a, b = (self.it.deref(self.it.eval(e, env, fc)) for e in es[:2])
        if not self.it.truth(self.it.m.eq(a, b)):
            raise Panic("assert_eq! at line %s" % n.line)
        return UNIT

    m_debug_assert_eq = m_assert_eq

    def m_abort(self, n, env, fc):
        msg = ""
        for t in n.toks:
            if t.k == "str":
                msg = t.v
        raise Abort(msg or "abort! at line %s" % n.line)

    m_abort_call_site = m_abort

    # ------------------------------------------------------------------ quote!
    def m_quote(self, n, env, fc):
        return TokV(self.expand(list(n.toks), env, fc))

    def m_quote_spanned(self, n, env, fc):
        toks = list(n.toks)
        for i, t in enumerate(toks):
            if t.k == "p" and t.v == "=>":
                return TokV(self.expand(toks[i + 1:], env, fc))
        raise Unsupported("quote_spanned! without span")

    def typed(self, v, want):
        """Parsed tokens as a value of the type which is asked for, if that is an identifier."""
        if want is not None and want.kind == "path" and want.segs[-1][0] == "Ident" and len(v.toks) == 1:
            t = v.toks[0]
            if t.k == "id":
                return Ident(S(t.v))
            if t.k == "hole" and isinstance(t.v, Ident):
                return t.v
            if t.k == "hole" and isinstance(t.v, TypeV) and t.v.t[0] == "obj":
                o = t.v.t[1]
                return Ident(S(Hole("tyident:" + o.kind, tuple(o.args))))
        return v

    def m_format_ident(self, n, env, fc):
        fmt, pos, named = self.args(list(n.toks), env, fc)
        parts = []
        nxt = 0
        i = 0
        while i < len(fmt):
            if fmt[i] == "{":
                j = fmt.index("}", i)
                nm = fmt[i + 1:j]
                i = j + 1
                if nm == "":
                    v = pos[nxt]
                    nxt += 1
                elif nm in named:
                    v = named[nm]
                    if nm == "span":
                        continue
                else:
                    v = env.box(nm).v
                v = self.it.deref(v)
                if isinstance(v, Ident):
                    v = self.it.m.method(v, "unraw", [], None, fc)
                parts.append(self.it.m.to_s(v))
            else:
                parts.append(fmt[i])
                i += 1
        return Ident(S(*parts))

    def expand(self, toks, env, fc):
        out = []
        i = 0
        while i < len(toks):
            t = toks[i]
            if t.k == "p" and t.v == "#" and i + 1 < len(toks):
                q = toks[i + 1]
                if q.k == "id":
                    b = env.box(q.v)
                    if b is not None:
                        out.extend(self.value_tokens(b.v, t, fc))
                        i += 2
                        continue
                    if q.v not in ("r",):
                        # a constant or an unknown name
                        raise Unsupported("quote! interpolates unknown #%s" % q.v)
                if q.k == "g" and q.d == "(":
                    j = i + 2
                    sep = None
                    if not (toks[j].k == "p" and toks[j].v == "*"):
                        sep = toks[j]
                        j += 1
                        if not (toks[j].k == "p" and toks[j].v == "*"):
                            raise Unsupported("quote! repetition")
                    out.extend(self.repeat(q.v, sep, env, fc))
                    i = j + 1
                    continue
            if t.k == "p" and t.v.startswith("#") is False and t.v.endswith("#"):
                raise Unsupported("quote! punctuation")
            if t.k == "g":
                out.append(Tok("g", self.expand(t.v, env, fc), t.d, t.line))
            else:
                out.append(t)
            i += 1
        return out

    def names(self, toks):
        out = []
        for i, t in enumerate(toks):
            if t.k == "p" and t.v == "#" and i + 1 < len(toks) and toks[i + 1].k == "id":
                if toks[i + 1].v not in out:
                    out.append(toks[i + 1].v)
            if t.k == "g":
                for x in self.names(t.v):
                    if x not in out:
                        out.append(x)
        return out

    def repeat(self, body, sep, env, fc):
        from interp import Env
        from std_models import Call
        it = self.it
        vars_ = []
        for nm in self.names(body):
            b = env.box(nm)
            if b is None:
                continue
            v = it.deref(b.v)
            if isinstance(v, (SeqV,)) or (isinstance(v, StructV) and v.name.startswith("$iter")):
                vars_.append((nm, v if isinstance(v, SeqV) else it.m.into_seq(v)))
            elif isinstance(v, Obj) and not getattr(v, "meta", {}).get("tokens"):
                s = None
                try:
                    s = it.m.into_seq(v)
                except Unsupported:
                    s = None
                if s is not None:
                    vars_.append((nm, s))
        if not vars_:
            raise Unsupported("quote! repetition without a sequence")
        # Settle effects of lazily evaluated bodies first (panics and aborts inside the iterators).
        seqs = [it.m.settle(s) for _, s in vars_]
        z = seqs[0]
        for s in seqs[1:]:
            z = it.m.seq_zip(Call(z, None, [s], None, fc))
        fenv = env.freeze()
        k = len(vars_)

        def unpack(v, d):
            # left-nested pairs of the zips
            if d == 1:
                return [v]
            return unpack(v.elems[0], d - 1) + [v.elems[1]]

        def f(v):
            e = Env(fenv)
            for (nm, _), x in zip(vars_, unpack(v, k)):
                e.bind(nm, x)
            return TokV(self.expand(list(body), e, fc))
        parts = it.ctx.norm(seq_map(it.ctx, z, f))
        if all(isinstance(p, One) for p in parts):
            out = []
            for j, p in enumerate(parts):
                if j and sep is not None:
                    out.append(sep)
                out.extend(p.v.toks)
            return out
        s2 = seq_map(it.ctx, SeqV(parts), lambda tv: strip_trailing(list(tv.toks)))
        return [Tok("seq", SeqV(s2.parts, "toks"), d=sep.v if sep is not None else "")]

    def concat_tokens(self, seq):
        """A sequence of token streams, one after the other."""
        parts = self.ctx.norm(seq)
        if all(isinstance(p, One) for p in parts):
            out = []
            for p in parts:
                out.extend(self.value_tokens(p.v, None))
            return TokV(out)
        s2 = seq_map(self.ctx, SeqV(parts), lambda tv: strip_trailing(list(self.value_tokens(tv, None))))
        return TokV([Tok("seq", SeqV(s2.parts, "toks"), d="")])

    # ------------------------------------------------------------------ ToTokens
    def value_tokens(self, v, node, fc=None):
        it = self.it
        v = it.deref(v)
        if isinstance(v, TokV):
            return list(v.toks)
        if isinstance(v, S):
            c = v.const()
            return [Tok("str", c)] if c is not None else [Tok("hole", v)]
        if isinstance(v, bool):
            return [Tok("id", "true" if v else "false")]
        if isinstance(v, z3.BoolRef):
            return [Tok("id", "true" if it.ctx.branch(v) else "false")]
        if isinstance(v, int):
            return [Tok("int", v)]
        if isinstance(v, Ch):
            return [Tok("char", v.c)] if isinstance(v.c, str) else [Tok("hole", v)]
        if isinstance(v, Ident):
            c = v.text()
            return [Tok("id", c)] if c is not None else [Tok("hole", v)]
        if isinstance(v, EnumV) and v.enum == "Option":
            return [] if v.variant == "None" else self.value_tokens(v.payload[0], node, fc)
        if isinstance(v, SymEnum) and v.enum == "Option":
            return self.value_tokens(it.m.force_enum(v), node, fc)
        if isinstance(v, TypeV):
            return [Tok("hole", v)]
        if isinstance(v, (StructV, EnumV, SymEnum)):
            t = it.m.type_of(v)
            if t is not None:
                h = it.find_trait_item(t, "ToTokens", "to_tokens")
                if h is not None:
                    im, b, d = h
                    box = Box_(TokV([]))
                    r = RefV(lambda: box.v, lambda x: it.write_box(box, x))
                    it.call_defn(d, [v, r], t, im, dict(b))
                    return list(box.v.toks)
        if isinstance(v, SeqV) and v.kind == "path":
            pass
        if getattr(v, "meta", None) is not None and isinstance(v, Obj) and "tokens" in v.meta:
            r = v.meta["tokens"]()
            return list(r)
        for h in it.extra_methods:
            r = h(it, v, "$tokens", [], node, None)
            if r is not NotImplemented:
                return list(r)
        if getattr(v, "hole_kind", None):
            return [Tok("hole", v)]
        raise Unsupported("ToTokens of %r" % (v,))


def block_from(toks):
    """Macro output in expression position."""
    p = P(list(toks))
    return p.block_body(0)
