"""Contracts of the helpers which turn an arbitrary string into a TypeScript literal or object key.

strlit(f): for every string x, f(x) is a double quoted literal whose value is exactly x.
key(f):    for every string x, f(x) is an object key denoting exactly x: a strlit, or x itself when x is
           a plain ASCII identifier.
Both are proved character by character: the text is the concatenation of one piece per character of x
(loop rule), and the piece of an arbitrary character is an escape of that character.
"""
import z3
from core import *
from interp import Interp
import decl


def decode(p):
    """Code point denoted by a constant piece inside a JS string literal, or None."""
    simple = {"n": 10, "r": 13, "t": 9, "b": 8, "f": 12, "v": 11, "\\": 92, '"': 34, "'": 39, "`": 96, "/": 47}
    if len(p) == 1:
        return None if p in '"\\\n\r' else ord(p)
    if p[0] != "\\":
        return None
    if len(p) == 2:
        return simple.get(p[1])
    try:
        if p.startswith("\\x") and len(p) == 4:
            return int(p[2:], 16)
        if p.startswith("\\u{") and p.endswith("}"):
            return int(p[3:-1], 16)
        if p.startswith("\\u") and len(p) == 6:
            v = int(p[2:], 16)
            return None if 0xd800 <= v <= 0xdfff else v
    except ValueError:
        pass
    return None


class Fail(Exception):
    pass


def piece_ok(ctx, piece, code):
    """The piece denotes the character `code` inside a double quoted literal."""
    c = piece.const()
    if c is not None:
        d = decode(c)
        if d is None:
            raise Fail("piece %r" % c)
        if not ctx.must(code == d):
            raise Fail("piece %r for another character" % c)
        return
    ps = piece.parts
    if len(ps) == 1 and isinstance(ps[0], Hole) and ps[0].fn == "chr":
        v = ps[0].args[0]
        if not ctx.must(v == code):
            raise Fail("another character")
        for bad in (34, 92, 10, 13):
            if not ctx.must(code != bad):
                raise Fail("character %r is copied without an escape" % chr(bad))
        return
    if len(ps) == 2 and ps[0] == "\\" and isinstance(ps[1], Hole) and ps[1].fn == "chr":
        v = ps[1].args[0]
        if not ctx.must(v == code):
            raise Fail("escape of another character")
        # these stand for themselves after a backslash
        if not ctx.must(z3.Or([v == k for k in (34, 92, 39, 96, 36, 47)])):
            raise Fail("a backslash before another character than a quote or a backslash")
        return
    if len(ps) == 2 and isinstance(ps[1], Hole) and (ps[0], ps[1].fn.lower()) in (("\\u", "04x"), ("\\x", "02x")):
        if not ctx.must(ps[1].args[0] == code):
            raise Fail("escape of another character")
        if not ctx.must(code < (0x10000 if ps[0] == "\\u" else 0x100)):
            raise Fail("an escape with too many digits")
        return
    if len(ps) == 3 and ps[0] == "\\u{" and ps[2] == "}" and isinstance(ps[1], Hole) and ps[1].fn == "hex":
        if not ctx.must(ps[1].args[0] == code):
            raise Fail("escape of another character")
        return
    raise Unsupported("piece %r" % (piece,))


def check_strlit(it, r, x):
    ctx = it.ctx
    if len(r.parts) == 1 and isinstance(r.parts[0], Hole) and r.parts[0].fn == "strlit" and \
            repr(r.parts[0].args[0]) == repr(x):
        return
    ps = list(r.parts)
    base = "chars<%r>" % (x,)
    if not ps or not (isinstance(ps[0], str) and ps[0].startswith('"')):
        raise Fail("does not start with a quote")
    if ps == ['""']:
        # only possible for the empty string
        seq = it.m.method(x, "chars", [], None, None)
        if not ctx.must(z3.Not(ctx.nonempty(seq))):
            raise Fail("empty literal")
        return
    if not (len(ps) == 3 and ps[0] == '"' and ps[2] == '"' and isinstance(ps[1], Join) and ps[1].sep in ("", None)):
        if any(isinstance(p, (Fold, Join)) for p in ps):
            raise Unsupported("shape of the literal: %r" % (r,))
        raise Fail("not quoted character by character: %r" % (r,))
    comps = ps[1].seq.parts
    if len(comps) != 1 or not isinstance(comps[0], Comp) or comps[0].base.fn != base or comps[0].rev:
        raise Unsupported("shape of the literal: %r" % (r,))
    comp = comps[0]
    chars = it.m.method(x, "chars", [], None, None).parts[0]

    def one():
        e = ctx.new_elem(comp.base, "c")
        code = chars.body(e)[0].v.code()
        vals = comp.body(e)
        if len(vals) != 1:
            raise Fail("a character yields %d pieces" % len(vals))
        piece_ok(ctx, it.m.to_s(vals[0].v), code)
    for conds, kind, v in ctx.explore(one):
        if kind != "ok":
            raise Fail("%s for some character" % kind)


def check_key(it, r, x):
    ctx = it.ctx
    if repr(r) != repr(x):
        return check_strlit(it, r, x)
    chars = it.m.method(x, "chars", [], None, None)
    if not ctx.must(ctx.nonempty(chars)):
        raise Fail("an empty key is not quoted")
    comp = chars.parts[0]

    def one(idx):
        e = ctx.new_elem(comp.base, "k", idx)
        k = comp.body(e)[0].v.code()
        ok_ = z3.Or(z3.And(k >= 65, k <= 90), z3.And(k >= 97, k <= 122), z3.And(k >= 48, k <= 57), k == 95, k == 36)
        if not ctx.must(ok_):
            raise Fail("a key with other than identifier characters is not quoted")
        if idx is not None and not ctx.must(z3.Not(z3.And(k >= 48, k <= 57))):
            raise Fail("a key starting with a digit is not quoted")
    ctx.explore(lambda: one(None))
    ctx.explore(lambda: one(z3.IntVal(0)))


def candidates(prog):
    for d in prog.all_fns():
        n = d.node
        if n.body is None or n.self_param is not None or d.module.crate != "zod_derive":
            continue
        if len(n.params) != 1 or n.ret is None or n.ret.kind != "path" or n.ret.segs[-1][0] != "String":
            continue
        t = n.params[0].ty
        while t is not None and t.kind == "tref":
            t = t.el
        if t is None or t.kind != "path" or t.segs[-1][0] not in ("str", "String"):
            continue
        yield d


_memo = {}


def prove(prog):
    """{qualified name: (contract, None) or (None, reason)}"""
    if id(prog) in _memo:
        return _memo[id(prog)]
    out = {}
    _memo[id(prog)] = out
    x = S(Hole("x"))
    pend = list(candidates(prog))
    for _ in range(2):
        for d in pend:
            if out.get(d.qual(), (None,))[0]:
                continue
            why = []
            for name, chk in (("strlit", check_strlit), ("key", check_key)):
                ctx = Ctx(None)
                it = Interp(prog, ctx)
                decl.install(it)
                install(it, out, skip=d.qual())

                def go():
                    r = it.call_defn(d, [x])
                    chk(it, it.m.to_s(r), x)
                try:
                    res = ctx.explore(go)
                    if all(k == "ok" for _, k, _ in res):
                        STATS["obligations"] += len(res)
                        out[d.qual()] = (name, None)
                        break
                    why.append("%s: %s" % (name, [k for _, k, _ in res]))
                except (Fail, Unsupported) as e:
                    why.append("%s: %s" % (name, e))
            else:
                out[d.qual()] = (None, "; ".join(why))
    return out


def install(it, proved, skip=None):
    for q, (name, why) in proved.items():
        if name is None or q == skip:
            continue

        def c(it, d, args, self_ty, tyargs, name=name):
            s = it.m.to_s(args[0])
            if s.const() is not None:
                return NotImplemented
            return S(Hole(name, (s,)))
        it.contracts[q] = c
