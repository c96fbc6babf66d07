"""Models of the standard library operations the verified code uses."""
import z3
import interp as I
from core import *
from interp import Env, FCtx, MapV, Meaning, SPAN, FrozenBox
from rlex import Tok
from rparse import N, parse_exprs
from program import Defn


def key_of(v):
    return repr(v)


_STR = z3.IntSort()
_consts = {}


LOWER = {i: i + 32 for i in range(65, 91)}


def const_str_term(s):
    """Distinct constants get distinct (negative) codes; unknown strings are unconstrained."""
    if s not in _consts:
        _consts[s] = -1 - len(_consts)
    return z3.IntVal(_consts[s])


def hole_term(h):
    ints = [a for a in h.args if isinstance(a, (z3.ExprRef, int))]
    rest = [repr(a) for a in h.args if not isinstance(a, (z3.ExprRef, int))]
    nm = "str:" + h.fn + ("<" + ",".join(rest) + ">" if rest else "")
    ints = [z3.IntVal(a) if isinstance(a, int) else a for a in ints]
    if ints:
        return z3.Function(nm, *([z3.IntSort()] * len(ints)), _STR)(*ints)
    return z3.Int(nm)


def s_term(s):
    """z3 term of a string that is a single constant or a single unknown."""
    c = s.const()
    if c is not None:
        return const_str_term(c)
    if len(s.parts) == 1 and isinstance(s.parts[0], Hole):
        return hole_term(s.parts[0])
    return None


def deep_has(v, name):
    """Does a value mention the accumulator marker?"""
    if isinstance(v, S):
        return any(deep_has(p, name) for p in v.parts)
    if isinstance(v, Hole):
        return v.fn == name or any(deep_has(a, name) for a in v.args)
    if isinstance(v, (list, tuple)):
        return any(deep_has(x, name) for x in v)
    if isinstance(v, One):
        return deep_has(v.v, name)
    if isinstance(v, SeqV):
        return any(deep_has(p, name) for p in v.parts)
    if isinstance(v, Marker):
        return v.name == name
    if isinstance(v, EnumV):
        pl = v.payload.values() if isinstance(v.payload, dict) else v.payload
        return any(deep_has(x, name) for x in pl)
    if isinstance(v, StructV):
        return any(deep_has(x, name) for x in v.fields.values())
    if isinstance(v, TupleV):
        return any(deep_has(x, name) for x in v.elems)
    return False


class Marker:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Models:
    def __init__(self, it):
        self.index_of = {}
        self.it = it
        self.ctx = it.ctx

    # ------------------------------------------------------------------ strings
    def to_s(self, v):
        """Text of a value under Display."""
        v = self.it.deref(v)
        if isinstance(v, S):
            return v
        if isinstance(v, Ch):
            return S(v.c) if isinstance(v.c, str) else S(Hole("chr", (v.c,)))
        if isinstance(v, bool):
            return S("true" if v else "false")
        if isinstance(v, int):
            return S(str(v))
        if isinstance(v, z3.ArithRef):
            return S(Hole("int", (v,)))
        if isinstance(v, Ident):
            return v.s
        if isinstance(v, SeqV):
            return self.join(v, "")
        if isinstance(v, Fold):
            return S(v)
        if isinstance(v, (StructV, EnumV, SymEnum)):
            t = self.type_of(v)
            if t is not None:
                h = self.it.find_trait_item(t, "Display", "fmt")
                if h is not None:
                    im, b, d = h
                    f = Box_(S())
                    fm = StructV("$formatter", {"box": f})
                    r = self.it.call_defn(d, [v, fm], t, im, dict(b))
                    return f.v
        if isinstance(v, Obj):
            if "display" in v.meta:
                return v.meta["display"]()
            return S(Hole("display:" + v.kind, v.args))
        for h in self.it.extra_methods:
            r = h(self.it, v, "to_string", [], None, None)
            if r is not NotImplemented:
                return r
        raise Unsupported("Display of %r" % (v,))

    def join(self, seq, sep):
        sep = self.it.deref(sep)
        sep = sep.const() if isinstance(sep, S) else sep
        if isinstance(sep, Ch):
            sep = sep.c
        if sep is None:
            raise Unsupported("join with unknown separator")
        parts = self.ctx.norm(seq)
        if all(isinstance(p, One) for p in parts):
            out = []
            for i, p in enumerate(parts):
                if i and sep:
                    out.append(sep)
                out.append(self.to_s(p.v))
            return S(*out)
        parts = self.settle(SeqV(parts)).parts
        mapped = seq_map(self.ctx, SeqV(parts), self.to_s)
        return S(Join(sep, mapped))

    def s_empty(self, s):
        """Formula / bool: the string is empty."""
        conds = []
        for p in s.parts:
            if isinstance(p, str):
                if p:
                    return False
            elif isinstance(p, Hole):
                if p.fn in NONEMPTY_HOLES:
                    return False
                conds.append(hole_term(p) == const_str_term(""))
            elif isinstance(p, Join):
                ne = self.ctx.nonempty(p.seq)
                if isinstance(ne, bool) and not ne:
                    continue
                if not self.all_nonempty(p.seq):
                    raise Unsupported("emptiness of a joined string")
                conds.append(z3.Not(ne) if not isinstance(ne, bool) else not ne)
            elif isinstance(p, Fold):
                if p.empty is None:
                    p.empty = z3.Bool(self.ctx.fresh("fold_empty"))
                conds.append(p.empty)
            else:
                raise Unsupported("emptiness of %r" % (p,))
        if not conds:
            return True
        conds = [c for c in conds if not (isinstance(c, bool) and c)]
        if any(isinstance(c, bool) for c in conds):
            return False
        return z3.And(*conds) if len(conds) > 1 else conds[0]

    def all_nonempty(self, seq):
        for p in seq.parts:
            if isinstance(p, One):
                if self.s_empty(self.to_s(p.v)) is not False:
                    return False
            else:
                def go(p=p):
                    e = self.ctx.new_elem(p.base, "ne")
                    return p.body(e)
                for conds, kind, vals in self.ctx.explore(go):
                    if kind != "ok":
                        return False
                    for q in vals:
                        if not isinstance(q, One) or self.s_empty(self.to_s(q.v)) is not False:
                            return False
        return True

    def s_eq(self, a, b):
        if a.const() is not None and b.const() is not None:
            return a.const() == b.const()
        if repr(a) == repr(b):
            return True
        ta, tb = s_term(a), s_term(b)
        if ta is not None and tb is not None:
            return ta == tb
        # a string with a known non-empty literal part is not empty
        for x, y in ((a, b), (b, a)):
            if x.const() == "":
                r = self.s_empty(y)
                return r
        raise Unsupported("equality of composite strings")

    # ------------------------------------------------------------------ operators
    def eq(self, a, b):
        a, b = self.it.deref(a), self.it.deref(b)
        if isinstance(a, SeqV) and isinstance(b, S):
            a = self.to_s(a)
        if isinstance(b, SeqV) and isinstance(a, S):
            b = self.to_s(b)
        if isinstance(a, S) and isinstance(b, S):
            return self.s_eq(a, b)
        if isinstance(a, Ch) and isinstance(b, Ch):
            r = a.code() == b.code()
            return r
        if isinstance(a, Ident) and isinstance(b, S):
            return self.s_eq(a.s, b)
        if isinstance(a, S) and isinstance(b, Ident):
            return self.s_eq(a, b.s)
        if isinstance(a, Ident) and isinstance(b, Ident):
            return self.s_eq(a.s, b.s)
        if isinstance(a, (bool, int, z3.ExprRef)) and isinstance(b, (bool, int, z3.ExprRef)):
            return a == b
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            if a.variant != b.variant:
                return False
            pa = list(a.payload.values()) if isinstance(a.payload, dict) else list(a.payload)
            pb = list(b.payload.values()) if isinstance(b.payload, dict) else list(b.payload)
            return self.all_eq(pa, pb)
        if isinstance(a, SymEnum) and isinstance(b, EnumV):
            for i, (n, th) in enumerate(a.variants):
                if n == b.variant:
                    if not b.payload:
                        return a.tag == i
                    if not self.ctx.branch(a.tag == i):
                        return False
                    return self.eq(EnumV(a.enum, n, th()), b)
            return False
        if isinstance(b, SymEnum) and isinstance(a, EnumV):
            return self.eq(b, a)
        if isinstance(a, TupleV) and isinstance(b, TupleV):
            return self.all_eq(a.elems, b.elems)
        if a is UNIT and b is UNIT:
            return True
        t = self.type_of(a)
        if t is not None and t[0] == "adt" and isinstance(t[1], Defn):
            h = self.it.find_trait_item(t, "PartialEq", "eq")
            if h is not None:
                return self.it.call_defn(h[2], [a, b], t, h[0], dict(h[1]))
        raise Unsupported("equality of %r and %r" % (a, b))

    def all_eq(self, xs, ys):
        for x, y in zip(xs, ys):
            if not self.it.truth(self.eq(x, y)):
                return False
        return True

    def binop(self, op, l, r, n=None):
        if op == "+" and (isinstance(l, S) or (isinstance(l, SeqV) and isinstance(r, S))):
            return S(self.to_s(l), self.to_s(r))
        if op == "==":
            return self.eq(l, r)
        if op == "!=":
            e = self.eq(l, r)
            return (not e) if isinstance(e, bool) else z3.Not(e)
        if isinstance(l, Ch):
            l = l.code()
        if isinstance(r, Ch):
            r = r.code()
        if isinstance(l, (bool, z3.BoolRef)) and isinstance(r, (bool, z3.BoolRef)):
            if op == "&":
                return z3.And(l, r) if not (isinstance(l, bool) and isinstance(r, bool)) else (l and r)
            if op == "|":
                return z3.Or(l, r) if not (isinstance(l, bool) and isinstance(r, bool)) else (l or r)
            if op == "^":
                return z3.Xor(l, r) if not (isinstance(l, bool) and isinstance(r, bool)) else (l != r)
        if isinstance(l, (int, z3.ArithRef)) and isinstance(r, (int, z3.ArithRef)):
            if op == "+": return l + r
            if op == "-":
                d = l - r
                if self.ctx.may(d < 0) if not isinstance(d, int) else d < 0:
                    if not self.it.truth(d >= 0):
                        raise Panic("attempt to subtract with overflow")
                return d
            if op == "*": return l * r
            if op == "<": return l < r
            if op == ">": return l > r
            if op == "<=": return l <= r
            if op == ">=": return l >= r
            if isinstance(l, int) and isinstance(r, int):
                if op == "/": return l // r
                if op == "%": return l % r
                if op == "&": return l & r
                if op == "|": return l | r
                if op == "<<": return l << r
                if op == ">>": return l >> r
        raise Unsupported("operator %s on %r, %r" % (op, l, r))

    # ------------------------------------------------------------------ types of values
    def type_of(self, v):
        if isinstance(v, (StructV, EnumV, SymEnum)) and v.defn is not None:
            if isinstance(v.defn, Defn):
                return ("adt", v.defn, [])
            return v.defn
        if isinstance(v, S):
            return ("adt", "String", [])
        if isinstance(v, Obj) and "type" in v.meta:
            return v.meta["type"]
        return None

    def enum_alias(self, a, b):
        return (a, b) in ENUM_ALIAS or (b, a) in ENUM_ALIAS

    def force_enum(self, v):
        v = self.it.deref(v)
        if isinstance(v, SymEnum):
            for i, (n, th) in enumerate(v.variants):
                if i == len(v.variants) - 1 or self.ctx.branch(v.tag == i):
                    if i == len(v.variants) - 1:
                        self.ctx.assume(v.tag == i)
                    return EnumV(v.enum, n, th(), v.defn)
        if isinstance(v, EnumV):
            return v
        raise Unsupported("not an enum: %r" % (v,))

    def coerce_to(self, v, ty, d, fc):
        """Coercions implied by a declared field type (lazy collect)."""
        v2 = self.it.deref(v) if not isinstance(v, RefV) else v
        if ty is not None and ty.kind == "path" and ty.segs[-1][0] == "String" and isinstance(v2, SeqV):
            return self.to_s(v2)
        return v

    # ------------------------------------------------------------------ fields
    def field(self, v, name, n=None):
        v = self.it.deref(v)
        if isinstance(v, StructV):
            if name in v.fields:
                return v.fields[name]
            if isinstance(v.defn, Defn):
                t = self.type_of(v)
                h = self.it.find_trait_item(t, "Deref", "deref")
                if h is not None:
                    return self.field(self.it.call_defn(h[2], [v], t, h[0], dict(h[1])), name, n)
        if isinstance(v, TupleV) and name.isdigit():
            return v.elems[int(name)]
        for h in self.it.extra_methods:
            r = h(self.it, v, "." + str(name), [], n, None)
            if r is not NotImplemented:
                return r
        if isinstance(v, Obj):
            f = v.meta.get("fields")
            if f is not None and name in f:
                x = f[name]
                return x() if callable(x) else x
        if isinstance(v, TokV) and name == "segments":
            return path_segments(v) or Obj("segments", (), {"tok": v})
        if isinstance(v, TokV) and name == "leading_colon":
            return NONE
        raise Unsupported("field %s of %r (line %s)" % (name, v, getattr(n, "line", "?")))

    def set_field(self, o, name, v):
        for h in self.it.extra_methods:
            r = h(self.it, o, "=" + str(name), [v], None, None)
            if r is not NotImplemented:
                return r
        raise Unsupported("assignment to field %s of %r" % (name, o))

    def deref_value(self, v):
        v = self.it.deref(v)
        if isinstance(v, (StructV, EnumV, SymEnum)) and isinstance(getattr(v, "defn", None), Defn):
            t = self.type_of(v)
            h = self.it.find_trait_item(t, "Deref", "deref")
            if h is not None and getattr(h[0], "trait_name", "") == "Deref":
                return v
        return v

    def index(self, v, i, n=None):
        v = self.it.deref(v)
        i = self.it.deref(i)
        if isinstance(v, SeqV):
            if isinstance(i, StructV) and i.name == "$range":
                return self.slice(v, i)
            parts = self.ctx.norm(v)
            if isinstance(i, int):
                for k, p in enumerate(parts):
                    if not isinstance(p, One):
                        break
                    if k == i:
                        return p.v
                if all(isinstance(p, One) for p in parts):
                    raise Panic("index out of bounds")
                if i == 0:
                    x, rest = self.ctx.first(SeqV(parts))
                    if x is None:
                        raise Panic("index out of bounds")
                    return x
            elif isinstance(i, z3.ArithRef) and len(parts) == 1 and isinstance(parts[0], Comp) and parts[0].total \
                    and not parts[0].rev and (self.in_range(i, parts[0].base)
                                              or self.ctx.must(z3.And(i >= 0, i < parts[0].base.n))):
                xs = parts[0].body(Elem(parts[0].base, i))
                if len(xs) == 1 and isinstance(xs[0], One):
                    return xs[0].v
            elif isinstance(i, z3.ArithRef) and all(isinstance(p, One) for p in parts):
                for k, p in enumerate(parts):
                    if self.ctx.must(i == k):
                        return p.v
        raise Unsupported("index of %r" % (v,))

    def in_range(self, i, base):
        k = self.index_of.get(i.get_id())
        return k is not None and self.ctx._same_base(k[1], base)

    def slice(self, v, r):
        parts = self.ctx.norm(v)
        lo, hi = r.fields["lo"], r.fields["hi"]
        if all(isinstance(p, One) for p in parts):
            hi2 = len(parts) if hi is None else hi + (1 if r.fields["incl"] else 0)
            return SeqV(parts[lo or 0:hi2])
        if hi is None and isinstance(lo, int):
            s = SeqV(parts)
            for _ in range(lo):
                x, s = self.ctx.first(s)
                if x is None:
                    raise Panic("range start out of bounds")
            return s
        raise Unsupported("slice")

    def as_tuple(self, x, n):
        raise Unsupported("tuple pattern on %r" % (x,))

    def match_slice(self, p, x, env, fc):
        if not isinstance(x, SeqV):
            raise Unsupported("slice pattern on %r" % (x,))
        pats = p.elems
        ri = [i for i, q in enumerate(pats) if q.kind == "prest" or
              (q.kind == "pident" and q.sub is not None and q.sub.kind == "prest")]
        n = self.ctx.count(x)
        if not ri:
            if not self.it.truth(n == len(pats)):
                return False
            vals = self.it.concrete(x) if len(pats) <= 2 else None
            if vals is None:
                vals = self.it.concrete(x)
            return self.it.match_list(pats, vals, env, fc)
        i = ri[0]
        if i != len(pats) - 1:
            raise Unsupported("slice pattern with elements after ..")
        if not self.it.truth(n >= i if not isinstance(n, int) else n >= i):
            return False
        s = x
        for q in pats[:i]:
            v, s = self.ctx.first(s)
            if v is None:
                return False
            if not self.it.match(q, v, env, fc):
                return False
        if pats[i].kind == "pident":
            env.bind(pats[i].name, s)
        return True

    TYPE_KINDS = ["Path", "Tuple", "Array", "Reference", "Paren", "Group", "Slice", "Ptr", "BareFn", "Never", "Macro",
                  "Verbatim", "Infer", "ImplTrait", "TraitObject"]

    def type_as_enum(self, v):
        """An opaque type as a value of syn::Type of unknown form."""
        if v.t[0] != "obj":
            return None
        o = v.t[1]
        if any(not isinstance(a, (int, z3.ExprRef)) for a in o.args):
            return None
        import decl
        tag = decl.zf("tykind:" + o.kind, list(o.args), z3.IntSort())
        self.ctx.fact(z3.And(tag >= 0, tag < len(self.TYPE_KINDS)))

        def sub(k, *more):
            return TypeV(("obj", Obj(o.kind + "." + k, tuple(o.args) + tuple(more))))

        def path():
            segs = SeqV([Comp(Base("tysegs:" + o.kind, tuple(o.args), lambda i: None),
                              lambda e: [One(StructV("syn::PathSegment", {
                                  "ident": Ident(S(Hole("tyseg:" + o.kind, tuple(o.args) + (e.idx,)))),
                                  "arguments": Obj("pathargs")}))], True),
                         One(StructV("syn::PathSegment", {"ident": Ident(S(Hole("tylast:" + o.kind, tuple(o.args)))),
                                                          "arguments": Obj("pathargs")}))], "vec")
            return (StructV("syn::TypePath", {"$ty": v, "qself": decl.opt_if(
                decl.zf("tyqself:" + o.kind, list(o.args)), lambda: Obj("qself")), "path": StructV("syn::Path", {
                    "$ty": v, "leading_colon": Obj("lc"), "segments": segs})}),)

        def tup():
            return (StructV("syn::TypeTuple", {"$ty": v, "elems": SeqV([Comp(
                Base("tyelems:" + o.kind, tuple(o.args), lambda i: None),
                lambda e: [One(sub("elem", e.idx))], True)], "vec")}),)

        def elem():
            return (StructV("syn::TypeElem", {"$ty": v, "elem": sub("elem"), "len": Obj("len"),
                                              "lifetime": Obj("lifetime"), "mutability": Obj("mut")}),)
        mk = {"Path": path, "Tuple": tup, "Array": elem, "Reference": elem, "Paren": elem, "Group": elem, "Slice": elem,
              "Ptr": elem}
        return SymEnum("Type", tag, [(k, mk.get(k, lambda: (StructV("syn::TypeOther", {"$ty": v}),))) for k in self.TYPE_KINDS])

    def obj_variant(self, x, name):
        h = x.meta.get("variant")
        if h is not None:
            return h(name)
        raise Unsupported("enum pattern %s on %r" % (name, x))

    # ------------------------------------------------------------------ sequences
    def settle(self, seq):
        """Make sure that evaluating the elements cannot panic or abort (or do so on this path)."""
        out = []
        for p in seq.parts:
            if isinstance(p, One):
                out.append(p)
                continue
            if p.settled:
                self.ctx.seq += 1          # keep the numbering of sub-computations independent of the flag
                out.append(p)
                continue
            bad, odd = self.ctx.memo(("settle", p.base.fn), lambda: self.settle_kinds(p))
            if odd:
                raise Unsupported("control flow out of a closure")
            if not bad:
                p.settled = True
                out.append(p)
                continue

            def bad_body(e, p=p):
                try:
                    p.body(e)
                except (Panic, Abort) as x:
                    return [One(x)]
                return []
            sel = Comp(p.base, bad_body, False)
            k = self.ctx.klass(sel)
            if self.ctx.branch(k.cnt >= 1):
                p.body(Elem(p.base, k.first))
                raise Infeasible()

            def ok_body(e, p=p):
                try:
                    return p.body(e)
                except (Panic, Abort):
                    raise Infeasible()
            q = Comp(p.base, ok_body, p.total, p.rev)
            q.settled = True
            out.append(q)
        return SeqV(out, seq.kind)

    def settle_kinds(self, p):
        res = self.ctx.explore(lambda: self.generic(p))
        kinds = [r[1] for r in res]
        return (any(k in ("panic", "abort") for k in kinds),
                any(k in ("return", "break", "continue") for k in kinds))

    def generic(self, p):
        e = self.ctx.new_elem(p.base, "s")
        return p.body(e)

    def flat_map_parts(self, seq, f, single=False):
        out = []
        if single:
            g = f

            def f(v):
                r = g(v)
                if len(r) != 1 or not isinstance(r[0], One):
                    raise Unsupported("an element which is not one value")
                return r
        for p in seq.parts:
            if isinstance(p, One):
                out.extend((g if single else f)(p.v))
            else:
                c = Comp(p.base, (lambda e, p=p: _flat(p.body(e), f)), p.total and single, p.rev)
                if single:
                    c.like = p.like or p
                out.append(c)
        return SeqV(out)

    def into_seq(self, v):
        v = self.it.deref(v)
        if isinstance(v, SeqV):
            return v
        if isinstance(v, StructV) and v.name == "$range":
            lo, hi = v.fields["lo"], v.fields["hi"]
            if isinstance(lo, int) and isinstance(hi, int):
                return seq_of(range(lo, hi + (1 if v.fields["incl"] else 0)))
            if isinstance(lo, int) and lo == 0 and z3.is_app(hi) and hi.decl().name().endswith("#len") \
                    and not v.fields["incl"]:
                # the indices of a sequence of that length
                b = Base(hi.decl().name()[:-4], hi.children(), None)
                return SeqV([Comp(b, lambda e: [One(e.idx)], True)])
            raise Unsupported("range iteration %r %r" % (lo, hi))
        if isinstance(v, EnumV) and v.enum == "Option":
            return SeqV([One(v.payload[0])]) if v.variant == "Some" else SeqV([])
        if isinstance(v, SymEnum) and v.enum == "Option":
            return self.into_seq(self.force_enum(v))
        if isinstance(v, MapV):
            import map_model
            return map_model.iterate(self, v)
        if isinstance(v, StructV) and v.name == "Fields":
            return v.fields["fields"]
        for h in self.it.extra_methods:
            r = h(self.it, v, "into_iter", [], None, None)
            if r is not NotImplemented:
                return r
        if isinstance(v, (StructV,)) and isinstance(v.defn, Defn):
            t = self.type_of(v)
            h = self.it.find_trait_item(t, "Deref", "deref")
            if h is not None:
                return self.into_seq(self.it.call_defn(h[2], [v], t, h[0], dict(h[1])))
        raise Unsupported("not iterable: %r" % (v,))

    def apply(self, f):
        """Callable for lazily applied closures."""
        ff = self.it.freeze_fn(f)
        return lambda *a: self.it.call(ff, list(a))

    def collect(self, seq, target, fc):
        seq = self.settle(seq)
        name = None
        args = []
        if target is not None:
            t = target
            while t.kind in ("tref",):
                t = t.el
            if t.kind == "path":
                name = t.segs[-1][0]
                args = t.segs[-1][1] or []
                if name == "Self" or len(t.segs) == 1:
                    pass
        if name == "String":
            return self.join(seq, "")
        if name in ("HashMap", "BTreeMap"):
            import map_model
            ts = self.it.types_of(args, fc) if args else []
            return map_model.from_pairs(self, name, seq, map_model.kinds(ts[1]) if len(ts) >= 2 else None)
        if name in ("Result", "Option"):
            return self.collect_try(seq, name)
        if name == "TokenStream":
            return self.it.q.concat_tokens(seq)
        return SeqV(seq.parts, "vec")

    def collect_try(self, seq, name):
        bad = "Err" if name == "Result" else "None"

        def body(v):
            v = self.force_enum(v)
            return [One(v)] if v.variant == bad else []
        fails = compose(self.ctx, seq, body)
        x, _ = self.ctx.first(fails)
        if x is not None:
            return x

        def val(v):
            v = self.force_enum(v)
            if v.variant == bad:
                raise Infeasible()
            return v.payload[0]
        return EnumV(name, "Ok" if name == "Result" else "Some", (seq_map(self.ctx, seq, val),))

    # ------------------------------------------------------------------ method calls
    def method(self, recv, name, args, n, fc, argnodes=None, env=None, tyargs=None, want=None):
        it = self.it
        v = it.deref(recv)
        place = recv if isinstance(recv, RefV) else None

        def getargs():
            nonlocal args
            if args is None:
                args = it.eval_args(argnodes, env, fc)
            return args

        if isinstance(v, SeqV) and v.parts and isinstance(v.parts[0], One) and isinstance(v.parts[0].v, Marker) and \
                name not in ("push", "extend", "append", "push_back", "extend_from_slice"):
            raise Unsupported("%s of a sequence which a loop adds to" % name)
        # methods of types defined in the verified program
        t = self.type_of(v)
        tries = 0
        while t is not None and tries < 4:
            h = it.find_trait_item(t, None, name)
            if h is not None and h[2].node.self_param is not None:
                im, b, d = h
                sp = d.node.self_param
                a = getargs()
                selfv = place if (sp.ref and sp.mut and place is not None) else v
                if sp.ref and sp.mut and place is None:
                    bx = Box_(v)
                    selfv = RefV(lambda: bx.v, lambda x: it.write_box(bx, x))
                ta = it.types_of(tyargs or [], fc)
                return it.call_defn(d, [selfv] + list(a), t, im, dict(b), ta)
            if name in ("clone", "to_owned", "borrow", "as_ref", "by_ref") and not (h is not None):
                if isinstance(v, (StructV, EnumV, SymEnum)):
                    return v
            dm = it.find_trait_item(t, "Deref", "deref") if isinstance(t[1], Defn) else None
            if name == "to_string":
                break
            if dm is None:
                break
            dmm = it.find_trait_item(t, "DerefMut", "deref_mut")
            if place is not None and dmm is not None:
                r = it.call_defn(dmm[2], [place], t, dmm[0], dict(dmm[1]))
                place = r if isinstance(r, RefV) else None
                v = it.deref(r)
            else:
                v = it.deref(it.call_defn(dm[2], [v], t, dm[0], dict(dm[1])))
            recv = place if place is not None else v
            t = self.type_of(v)
            tries += 1

        for h in it.extra_methods:
            r = h(it, v, name, getargs, n, place)
            if r is not NotImplemented:
                return r

        m = None
        if isinstance(v, S):
            m = getattr(self, "str_" + name, None)
        elif isinstance(v, Ch):
            m = getattr(self, "char_" + name, None)
        elif isinstance(v, SeqV):
            m = getattr(self, "seq_" + name, None)
            if m is None and getattr(self, "str_" + name, None) is not None and v.kind != "iter":
                # a lazily collected String
                v = self.to_s(v)
                m = getattr(self, "str_" + name, None)
        elif isinstance(v, (EnumV, SymEnum)) and v.enum == "Option":
            m = getattr(self, "opt_" + name, None)
        elif isinstance(v, (EnumV, SymEnum)) and v.enum == "Result":
            m = getattr(self, "res_" + name, None)
        elif isinstance(v, Ident):
            m = getattr(self, "ident_" + name, None)
        elif isinstance(v, (bool, z3.BoolRef)):
            m = getattr(self, "bool_" + name, None)
        elif isinstance(v, MapV):
            import map_model
            return map_model.method(self, v, place, name, getargs(), n)
        elif isinstance(v, StructV) and v.name == "$entry":
            import map_model
            return map_model.entry_method(self, v, name, getargs())
        elif isinstance(v, StructV) and v.name == "$formatter":
            m = getattr(self, "fmt_" + name, None)
        elif isinstance(v, StructV) and v.name == "Fields":
            if name in ("iter", "into_iter"):
                return self.into_seq(v)
            if name in ("len", "is_empty"):
                v = v.fields["fields"]
                m = getattr(self, "seq_" + name)
            if name in STYLES and "style" in v.fields:
                return self._is(self.it.deref(v.fields["style"]), STYLES[name])
            if name in ("is_newtype", "is_tuple", "is_struct", "is_unit"):
                raise Unsupported("Fields::" + name)
        elif name in STYLES and getattr(v, "enum", None) == "Style":
            return self._is(v, STYLES[name])
        elif isinstance(v, TokV):
            m = getattr(self, "tok_" + name, None)
        elif isinstance(v, TypeV):
            m = getattr(self, "ty_" + name, None)
        elif isinstance(v, (int, z3.ArithRef)):
            m = getattr(self, "int_" + name, None)
        elif isinstance(v, Obj):
            m = getattr(self, "obj_" + name, None)
        if m is not None:
            c = Call(v, place, getargs(), n, fc, tyargs, want, env)
            return m(c)
        if name in IDENTITY:
            return v
        if name == "to_string":
            return self.to_s(v)
        if name == "into" or name == "try_into":
            return self.into(v, want, fc)
        if name in ("iter", "into_iter"):
            return self.into_seq(v)
        if name in ("fmt",):
            a = getargs()
            f = it.deref(a[0])
            bx = f.fields["box"]
            it.write_box(bx, S(bx.v, self.to_s(v)))
            return ok(UNIT)
        if name == "eq":
            return self.eq(v, getargs()[0])
        if name == "ne":
            r = self.eq(v, getargs()[0])
            return not r if isinstance(r, bool) else z3.Not(r)
        if isinstance(v, (ClosureV, PyFn)) and name in ("call",):
            return it.call(v, getargs())
        if isinstance(v, (StructV,)) and v.name == "$range" and name not in ("contains",):
            return self.method(self.into_seq(v), name, getargs(), n, fc, tyargs=tyargs, want=want)
        if name in ("to_tokens", "into_token_stream", "to_token_stream"):
            a = getargs()
            tv = it.q.value_tokens(v, None)
            if name == "to_tokens":
                return self.method(a[0], "extend", [TokV(tv)], n, fc)
            return TokV(tv)
        raise Unsupported("method %s on %r (line %s)" % (name, v, getattr(n, "line", "?")))

    def into(self, v, want, fc):
        v = self.it.deref(v)
        if want is not None and want.kind == "path":
            nm = want.segs[-1][0]
            if nm == "Option" and not (isinstance(v, (EnumV, SymEnum)) and v.enum == "Option"):
                return some(v)
        for h in self.it.extra_methods:
            r = h(self.it, v, "$into", [want, fc], None, None)
            if r is not NotImplemented:
                return r
        return v

    # -- str
    def str_is_empty(self, c):
        return self.s_empty(c.v)

    def str_len(self, c):
        if c.v.const() is not None:
            return len(c.v.const().encode())
        n = z3.Int("strlen<%r>" % (c.v,))
        e = self.s_empty(c.v)
        self.ctx.fact_path(n >= 0)
        self.ctx.fact_path((n == 0) == e)
        return n

    def str_push(self, c):
        x = self.it.deref(c.args[0])
        return self.append(c, self.to_s(x))

    def str_push_str(self, c):
        return self.append(c, self.to_s(c.args[0]))

    def append(self, c, s):
        if c.place is None:
            raise Unsupported("append to a temporary")
        c.place.set(S(c.v, s))
        return UNIT

    def str_write_str(self, c):
        self.append(c, self.to_s(c.args[0]))
        return ok(UNIT)

    def str_write_fmt(self, c):
        self.append(c, self.to_s(c.args[0]))
        return ok(UNIT)

    def str_insert_str(self, c):
        if c.args[0] != 0:
            raise Unsupported("insert_str")
        c.place.set(S(self.to_s(c.args[1]), c.v))
        return UNIT

    def str_insert(self, c):
        return self.str_insert_str(c)

    def str_extend(self, c):
        return self.append(c, self.join(self.into_seq(c.args[0]), ""))

    def str_trim(self, c):
        x = c.v.const()
        if x is not None:
            return S(x.strip())
        return S(Hole("trim", (c.v,)))

    def str_trim_start(self, c):
        x = c.v.const()
        return S(x.lstrip()) if x is not None else S(Hole("trim_start", (c.v,)))

    def str_trim_end(self, c):
        x = c.v.const()
        return S(x.rstrip()) if x is not None else S(Hole("trim_end", (c.v,)))

    def str_replace(self, c):
        a, b = self.to_s(c.args[0]), self.to_s(c.args[1])
        if a.const() is None or b.const() is None:
            raise Unsupported("replace with unknown strings")
        if c.v.const() is not None:
            return S(c.v.const().replace(a.const(), b.const()))
        return S(Hole("replace", (c.v, a, b)))

    def str_lines(self, c):
        x = c.v.const()
        if x is not None:
            return seq_of([S(y[:-1] if y.endswith("\r") else y) for y in
                           (x.split("\n")[:-1] if x.endswith("\n") else x.split("\n") if x else [])])
        src = c.v
        base = Base("lines<%r>" % (src,), (), lambda i: S(Hole("line", (src, i))))
        return SeqV([Comp(base, lambda e: [One(S(Hole("line", (src, e.idx))))], True)], "iter")

    def str_split(self, c):
        x = c.v.const()
        a = self.it.deref(c.args[0])
        a = self.to_s(a).const() if isinstance(a, (S, Ch)) else None
        if x is not None and a is not None:
            return seq_of([S(y) for y in x.split(a)])
        if a is None:
            raise Unsupported("split by a predicate")
        src = c.v
        base = Base("split<%r,%r>" % (a, src), (), lambda i: None)
        return SeqV([Comp(base, lambda e: [One(S(Hole("piece", (src, S(a), e.idx))))], True)], "iter")

    def str_chars(self, c):
        x = c.v.const()
        if x is not None:
            return seq_of([Ch(y) for y in x])
        src = c.v
        nm = "chars<%r>" % (src,)
        base = Base(nm, (), None)
        t = s_term(src)
        if t is not None:
            self.ctx.fact_path(z3.And(base.n >= 0, (t == const_str_term("")) == (base.n == 0)))
        f = z3.Function("ch:" + nm, z3.IntSort(), z3.IntSort())

        def body(e):
            code = f(e.idx)
            self.ctx.fact_path(z3.And(code >= 0, code <= 0x10ffff, z3.Or(code < 0xd800, code > 0xdfff)))
            return [One(Ch(code))]
        return SeqV([Comp(base, body, True)], "iter")

    def str_char_indices(self, c):
        return self.seq_enumerate(Call(self.str_chars(c), None, [], c.n, c.fc))

    def str_bytes(self, c):
        x = c.v.const()
        if x is not None:
            return seq_of(list(x.encode()))
        nm = "bytes<%r>" % (c.v,)
        base = Base(nm, (), None)
        f = z3.Function("byte:" + nm, z3.IntSort(), z3.IntSort())

        def body(e):
            code = f(e.idx)
            self.ctx.fact_path(z3.And(code >= 0, code <= 255))
            return [One(code)]
        return SeqV([Comp(base, body, True)], "iter")

    def str_starts_with(self, c):
        a = self.it.deref(c.args[0])
        if isinstance(a, (S, Ch)):
            x = self.to_s(a).const()
            if c.v.const() is not None and x is not None:
                return c.v.const().startswith(x)
            if x is not None and c.v.parts and isinstance(c.v.parts[0], str) and len(c.v.parts[0]) >= len(x):
                return c.v.parts[0].startswith(x)
            if x is not None and len(x) == 1:
                ch, _ = self.ctx.first(self.str_chars(c))
                if ch is None:
                    return False
                return self.eq(ch, Ch(x))
            raise Unsupported("starts_with of unknown strings")
        ch, _ = self.ctx.first(self.str_chars(c))
        if ch is None:
            return False
        return self.it.call(a, [ch])

    def str_eq_ignore_ascii_case(self, c):
        x = self.to_s(c.args[0])
        a, b = c.v.const(), x.const()
        if a is not None and b is not None:
            return a.translate(LOWER) == b.translate(LOWER)
        e = self.eq(c.v, x)
        if e is True:
            return True
        same = z3.Bool("same_letters<%r,%r>" % (c.v, x))    # strings which differ by the case of letters only
        return same if e is False else z3.Or(e, same)

    def str_ends_with(self, c):
        x = self.to_s(c.args[0]).const()
        if c.v.const() is not None and x is not None:
            return c.v.const().endswith(x)
        raise Unsupported("ends_with of unknown strings")

    def str_contains(self, c):
        a = self.it.deref(c.args[0])
        if isinstance(a, S):
            if c.v.const() is not None and a.const() is not None:
                return a.const() in c.v.const()
            x = a.const()
            if x is not None and len(x) == 1:
                return self.seq_any(Call(self.str_chars(c), None, [PyFn(lambda ch: self.eq(ch, Ch(x)))], c.n, c.fc))
            return z3.Bool("contains<%r,%r>" % (c.v, a))
        if isinstance(a, Ch):
            return self.seq_any(Call(self.str_chars(c), None, [PyFn(lambda ch: self.eq(ch, a))], c.n, c.fc))
        if isinstance(a, SeqV):
            chars = self.it.concrete(a)
            return self.seq_any(Call(self.str_chars(c), None, [PyFn(
                lambda ch: z3.Or(*[ch.code() == x.code() for x in chars]))], c.n, c.fc))
        return self.seq_any(Call(self.str_chars(c), None, [a], c.n, c.fc))

    def str_strip_prefix(self, c):
        x = self.to_s(c.args[0]).const()
        y = c.v.const()
        if y is not None and x is not None:
            return some(S(y[len(x):])) if y.startswith(x) else NONE
        raise Unsupported("strip_prefix of unknown strings")

    def str_to_uppercase(self, c):
        return S(c.v.const().upper()) if c.v.const() is not None else S(Hole("upper", (c.v,)))

    def str_to_lowercase(self, c):
        return S(c.v.const().lower()) if c.v.const() is not None else S(Hole("lower", (c.v,)))

    def str_repeat(self, c):
        if isinstance(c.args[0], int):
            return S(*([c.v] * c.args[0]))
        raise Unsupported("repeat")

    def str_as_bytes(self, c):
        return SeqV(self.str_bytes(c).parts, "vec")

    def lossless(self, a, ch):
        """u32::from and the like: every conversion std has of this name keeps the number."""
        v = self.it.deref(a[0])
        if isinstance(v, Ch):
            return v if ch else v.code()
        if isinstance(v, bool) or not isinstance(v, (int, z3.ArithRef)):
            raise Unsupported("conversion of %r" % (v,))
        return Ch(chr(v) if isinstance(v, int) else v) if ch else v

    def str_cmp(self, c):
        raise Unsupported("string order")

    def str_parse(self, c):
        raise Unsupported("parse")

    def str_is_some_and(self, c):
        raise Unsupported("?")

    # -- char
    def _cls(self, c, f, g):
        x = c.v.c
        if isinstance(x, str):
            return f(x)
        return g(x)

    def char_is_ascii_digit(self, c):
        return self._cls(c, lambda x: "0" <= x <= "9", lambda k: z3.And(k >= 48, k <= 57))

    def char_is_ascii_alphabetic(self, c):
        return self._cls(c, lambda x: x.isascii() and x.isalpha(),
                         lambda k: z3.Or(z3.And(k >= 65, k <= 90), z3.And(k >= 97, k <= 122)))

    def char_is_ascii_alphanumeric(self, c):
        return self._cls(c, lambda x: x.isascii() and x.isalnum(),
                         lambda k: z3.Or(z3.And(k >= 65, k <= 90), z3.And(k >= 97, k <= 122), z3.And(k >= 48, k <= 57)))

    def char_is_ascii_lowercase(self, c):
        return self._cls(c, lambda x: "a" <= x <= "z", lambda k: z3.And(k >= 97, k <= 122))

    def char_is_ascii_uppercase(self, c):
        return self._cls(c, lambda x: "A" <= x <= "Z", lambda k: z3.And(k >= 65, k <= 90))

    def char_is_control(self, c):
        return self._cls(c, lambda x: ord(x) < 32 or 127 <= ord(x) <= 159,
                         lambda k: z3.Or(k < 32, z3.And(k >= 127, k <= 159)))

    def char_is_ascii_control(self, c):
        return self._cls(c, lambda x: ord(x) < 32 or ord(x) == 127, lambda k: z3.Or(k < 32, k == 127))

    def char_is_ascii(self, c):
        return self._cls(c, lambda x: ord(x) < 128, lambda k: k < 128)

    def _unicode(self, name):
        f = z3.Function("unicode:" + name, z3.IntSort(), z3.BoolSort())
        return f

    def char_is_alphabetic(self, c):
        return self._cls(c, lambda x: x.isalpha(), lambda k: z3.If(k < 128, z3.Or(z3.And(k >= 65, k <= 90), z3.And(k >= 97, k <= 122)), self._unicode("alphabetic")(k)))

    def char_is_alphanumeric(self, c):
        return self._cls(c, lambda x: x.isalnum(), lambda k: z3.If(k < 128, z3.Or(z3.And(k >= 65, k <= 90), z3.And(k >= 97, k <= 122), z3.And(k >= 48, k <= 57)), self._unicode("alphanumeric")(k)))

    def char_is_numeric(self, c):
        return self._cls(c, lambda x: x.isnumeric(), lambda k: z3.If(k < 128, z3.And(k >= 48, k <= 57), self._unicode("numeric")(k)))

    def char_is_whitespace(self, c):
        return self._cls(c, lambda x: x.isspace(), lambda k: z3.If(k < 128, z3.Or(k == 32, z3.And(k >= 9, k <= 13)), self._unicode("whitespace")(k)))

    def char_to_string(self, c):
        return self.to_s(c.v)

    def char_escape_unicode(self, c):
        return S("\\u{", self.fmt_hex(c.v.code()), "}")

    def char_escape_debug(self, c):
        raise Unsupported("escape_debug")

    def fmt_hex(self, v):
        if isinstance(v, int):
            return S("%x" % v)
        return S(Hole("hex", (v,)))

    # -- bool
    def bool_then(self, c):
        if self.it.truth(c.v):
            return some(self.it.call(c.args[0], []))
        return NONE

    def bool_then_some(self, c):
        return some(c.args[0]) if self.it.truth(c.v) else NONE

    # -- int
    def int_saturating_sub(self, c):
        d = c.v - c.args[0]
        return max(d, 0) if isinstance(d, int) else z3.If(d >= 0, d, 0)

    def int_to_string(self, c):
        return self.to_s(c.v)

    # -- Option / Result
    def opt_is_some(self, c):
        return self._is(c.v, "Some")

    def opt_is_none(self, c):
        r = self._is(c.v, "Some")
        return not r if isinstance(r, bool) else z3.Not(r)

    def _is(self, v, name):
        if isinstance(v, EnumV):
            return v.variant == name
        for i, (n, th) in enumerate(v.variants):
            if n == name:
                return v.tag == i
        return False

    def opt_is_some_and(self, c):
        v = self.force_enum(c.v)
        return self.it.call(c.args[0], [v.payload[0]]) if v.variant == "Some" else False

    def opt_unwrap(self, c):
        v = self.force_enum(c.v)
        if v.variant == "None":
            raise Panic("called `Option::unwrap()` on a `None` value")
        return v.payload[0]

    opt_expect = opt_unwrap

    def opt_unwrap_or(self, c):
        v = self.force_enum(c.v)
        return v.payload[0] if v.variant == "Some" else c.args[0]

    def opt_unwrap_or_else(self, c):
        v = self.force_enum(c.v)
        return v.payload[0] if v.variant == "Some" else self.it.call(c.args[0], [])

    def opt_unwrap_or_default(self, c):
        v = self.force_enum(c.v)
        if v.variant == "Some":
            return v.payload[0]
        d = c.v_meta_default if hasattr(c, "v_meta_default") else None
        return S()

    def opt_map(self, c):
        v = self.force_enum(c.v)
        return some(self.it.call(c.args[0], [v.payload[0]])) if v.variant == "Some" else NONE

    def opt_map_or(self, c):
        v = self.force_enum(c.v)
        return self.it.call(c.args[1], [v.payload[0]]) if v.variant == "Some" else c.args[0]

    def opt_map_or_else(self, c):
        v = self.force_enum(c.v)
        return self.it.call(c.args[1], [v.payload[0]]) if v.variant == "Some" else self.it.call(c.args[0], [])

    def opt_and_then(self, c):
        v = self.force_enum(c.v)
        return self.it.call(c.args[0], [v.payload[0]]) if v.variant == "Some" else NONE

    def opt_filter(self, c):
        v = self.force_enum(c.v)
        if v.variant == "Some" and self.it.truth(self.it.call(c.args[0], [v.payload[0]])):
            return v
        return NONE

    def opt_or(self, c):
        v = self.force_enum(c.v)
        return v if v.variant == "Some" else c.args[0]

    def opt_or_else(self, c):
        v = self.force_enum(c.v)
        return v if v.variant == "Some" else self.it.call(c.args[0], [])

    def opt_ok_or(self, c):
        v = self.force_enum(c.v)
        return ok(v.payload[0]) if v.variant == "Some" else err(c.args[0])

    def opt_ok_or_else(self, c):
        v = self.force_enum(c.v)
        return ok(v.payload[0]) if v.variant == "Some" else err(self.it.call(c.args[0], []))

    def opt_and(self, c):
        v = self.force_enum(c.v)
        return c.args[0] if v.variant == "Some" else NONE

    def opt_xor(self, c):
        v = self.force_enum(c.v)
        w = self.force_enum(self.it.deref(c.args[0]))
        if v.variant == "Some":
            return NONE if w.variant == "Some" else v
        return w

    def opt_zip(self, c):
        v = self.force_enum(c.v)
        w = self.force_enum(self.it.deref(c.args[0]))
        return some(TupleV([v.payload[0], w.payload[0]])) if v.variant == w.variant == "Some" else NONE

    def opt_flatten(self, c):
        v = self.force_enum(c.v)
        return v.payload[0] if v.variant == "Some" else NONE

    def opt_is_none_or(self, c):
        v = self.force_enum(c.v)
        return self.it.call(c.args[0], [v.payload[0]]) if v.variant == "Some" else True

    def opt_inspect(self, c):
        v = self.force_enum(c.v)
        if v.variant == "Some":
            self.it.call(c.args[0], [v.payload[0]])
        return v

    def opt_as_ref(self, c):
        return c.v

    opt_as_mut = opt_as_deref = opt_cloned = opt_copied = opt_clone = opt_as_ref

    def opt_take(self, c):
        v = c.v
        c.place.set(NONE)
        return v

    def opt_iter(self, c):
        return self.into_seq(c.v)

    opt_into_iter = opt_iter

    def opt_get_or_insert_with(self, c):
        raise Unsupported("get_or_insert_with")

    def res_unwrap(self, c):
        v = self.force_enum(c.v)
        if v.variant == "Err":
            raise Panic("called `Result::unwrap()` on an `Err` value")
        return v.payload[0]

    res_expect = res_unwrap

    def res_unwrap_or(self, c):
        v = self.force_enum(c.v)
        return v.payload[0] if v.variant == "Ok" else c.args[0]

    def res_unwrap_or_else(self, c):
        v = self.force_enum(c.v)
        return v.payload[0] if v.variant == "Ok" else self.it.call(c.args[0], [v.payload[0]])

    def res_ok(self, c):
        v = self.force_enum(c.v)
        return some(v.payload[0]) if v.variant == "Ok" else NONE

    def res_err(self, c):
        v = self.force_enum(c.v)
        return some(v.payload[0]) if v.variant == "Err" else NONE

    def res_is_ok(self, c):
        return self._is(c.v, "Ok")

    def res_is_err(self, c):
        return self._is(c.v, "Err")

    def res_map(self, c):
        v = self.force_enum(c.v)
        return ok(self.it.call(c.args[0], [v.payload[0]])) if v.variant == "Ok" else v

    def res_map_err(self, c):
        v = self.force_enum(c.v)
        return err(self.it.call(c.args[0], [v.payload[0]])) if v.variant == "Err" else v

    def res_and_then(self, c):
        v = self.force_enum(c.v)
        return self.it.call(c.args[0], [v.payload[0]]) if v.variant == "Ok" else v

    def res_or_else(self, c):
        v = self.force_enum(c.v)
        return self.it.call(c.args[0], [v.payload[0]]) if v.variant == "Err" else v

    def res_unwrap_err(self, c):
        v = self.force_enum(c.v)
        if v.variant == "Ok":
            raise Panic("called `Result::unwrap_err()` on an `Ok` value")
        return v.payload[0]

    res_expect_err = res_unwrap_err

    def res_unwrap_or_default(self, c):
        v = self.force_enum(c.v)
        if v.variant == "Ok":
            return v.payload[0]
        raise Unsupported("default of a result")

    def res_map_or(self, c):
        v = self.force_enum(c.v)
        return self.it.call(c.args[1], [v.payload[0]]) if v.variant == "Ok" else c.args[0]

    def res_map_or_else(self, c):
        v = self.force_enum(c.v)
        return self.it.call(c.args[1 if v.variant == "Ok" else 0], [v.payload[0]])

    def res_and(self, c):
        v = self.force_enum(c.v)
        return c.args[0] if v.variant == "Ok" else v

    def res_or(self, c):
        v = self.force_enum(c.v)
        return v if v.variant == "Ok" else c.args[0]

    def res_is_ok_and(self, c):
        v = self.force_enum(c.v)
        return self.it.call(c.args[0], [v.payload[0]]) if v.variant == "Ok" else False

    def res_is_err_and(self, c):
        v = self.force_enum(c.v)
        return self.it.call(c.args[0], [v.payload[0]]) if v.variant == "Err" else False

    def res_as_ref(self, c):
        return c.v

    # -- Ident
    def ident_to_string(self, c):
        return c.v.s

    def ident_span(self, c):
        return SPAN

    def ident_set_span(self, c):
        return UNIT

    def ident_unraw(self, c):
        x = c.v.text()
        if x is not None:
            return Ident(x[2:] if x.startswith("r#") else x)
        return Ident(S(Hole("unraw", (c.v.s,))))

    def ident_to_token_stream(self, c):
        return TokV(self.it.q.value_tokens(c.v, None))

    # -- types / tokens
    def ty_span(self, c):
        return SPAN

    def ty_clone(self, c):
        return c.v

    def tok_span(self, c):
        return SPAN

    def tok_is_empty(self, c):
        return len(c.v.toks) == 0

    def tok_to_string(self, c):
        raise Unsupported("text of a token stream")

    def tok_extend(self, c):
        a = self.it.deref(c.args[0])
        if isinstance(a, TokV):
            add = a.toks
        elif isinstance(a, SeqV):
            add = self.it.q.concat_tokens(a).toks
        else:
            add = self.it.q.value_tokens(a, None)
        c.place.set(TokV(list(c.v.toks) + list(add)))
        return UNIT

    def tok_into_iter(self, c):
        raise Unsupported("iteration over tokens")

    def obj_span(self, c):
        return SPAN

    # -- fmt::Formatter
    def fmt_write_str(self, c):
        b = c.v.fields["box"]
        self.it.write_box(b, S(b.v, self.to_s(c.args[0])))
        return ok(UNIT)

    fmt_write_fmt = fmt_write_str
    fmt_write_char = fmt_write_str
    fmt_pad = fmt_write_str

    # -- sequences and iterators
    def _it(self, parts):
        return SeqV(parts, "iter")

    def seq_iter(self, c):
        return SeqV(c.v.parts, "iter")

    seq_into_iter = seq_iter_mut = seq_cloned = seq_copied = seq_by_ref = seq_fuse = seq_peekable = \
        seq_into_values = seq_iter

    def seq_as_slice(self, c):
        return c.v

    seq_to_vec = seq_as_slice

    def seq_map(self, c):
        f = self.apply(c.args[0])
        if all(isinstance(p, One) for p in c.v.parts):
            return self._it([One(self.it.call(c.args[0], [p.v])) for p in c.v.parts])
        return self._it(seq_map(self.ctx, c.v, f).parts)

    def seq_filter(self, c):
        f = self.apply(c.args[0])
        return self._it(compose(self.ctx, c.v, lambda v: [One(v)] if self.it.truth(f(v)) else []).parts)

    def seq_filter_map(self, c):
        f = self.apply(c.args[0])

        def g(v):
            r = self.force_enum(f(v))
            return [One(r.payload[0])] if r.variant == "Some" else []
        return self._it(compose(self.ctx, c.v, g).parts)

    def seq_flat_map(self, c):
        f = self.apply(c.args[0])
        return self._it(compose(self.ctx, c.v, lambda v: self.into_seq(f(v)).parts).parts)

    def seq_flatten(self, c):
        return self._it(compose(self.ctx, c.v, lambda v: self.into_seq(v).parts).parts)

    def seq_inspect(self, c):
        return c.v

    def seq_zip(self, c):
        a, b = c.v, self.into_seq(c.args[0])
        pa, pb = self.ctx.norm(a), self.ctx.norm(b)
        out = []
        for x, y in zip(pa, pb):
            if isinstance(x, One) and isinstance(y, One):
                out.append(One(TupleV([x.v, y.v])))
            elif isinstance(x, Comp) and isinstance(y, Comp) and x.total and y.total and x.rev == y.rev and \
                    self.ctx._same_base(x.base, y.base):
                def body(e, x=x, y=y):
                    u, w = x.body(e), y.body(e)
                    if len(u) != 1 or len(w) != 1 or not isinstance(u[0], One) or not isinstance(w[0], One):
                        raise Unsupported("zip of nested sequences")
                    return [One(TupleV([u[0].v, w[0].v]))]
                out.append(Comp(x.base, body, True, x.rev))
            elif isinstance(x, Comp) and isinstance(y, Comp) and not x.rev and not y.rev and \
                    self.ctx._same_base(x.base, y.base) and self.ctx.same_selection(x, y):
                def body2(e, x=x, y=y):
                    u, w = x.body(e), y.body(e)
                    if len(u) != len(w):
                        raise Infeasible()
                    return [One(TupleV([p.v, q.v])) for p, q in zip(u, w)]
                out.append(Comp(x.base, body2, False, False))
            else:
                raise Unsupported("zip of differently shaped sequences")
        if len(pa) != len(pb):
            if any(isinstance(p, Comp) for p in pa + pb):
                raise Unsupported("zip of differently shaped sequences")
        return self._it(out)

    def always_one(self, p):
        """Every element yields exactly one value."""
        if p.total:
            return True

        def look():
            res = self.ctx.explore(lambda: self.generic(p))
            return all(k == "ok" and len(v) == 1 and isinstance(v[0], One) for _, k, v in res)
        return self.ctx.memo(("always_one", p.base.fn), look)

    def seq_enumerate(self, c):
        out = []
        off = 0
        for p in self.ctx.norm(c.v):
            if isinstance(p, One):
                out.append(One(TupleV([off, p.v])))
                off = off + 1
            elif not p.rev and self.always_one(p):
                def body(e, p=p, off=off):
                    u = p.body(e)
                    if len(u) != 1 or not isinstance(u[0], One):
                        raise Unsupported("enumerate of nested sequence")
                    if isinstance(off, int) and off == 0:
                        if isinstance(e.idx, z3.ArithRef):
                            # as good as any fact about it: an element exists only where its index is in range
                            self.index_of[e.idx.get_id()] = (e.idx, p.base)
                        return [One(TupleV([e.idx, u[0].v]))]
                    return [One(TupleV([e.idx + off, u[0].v]))]
                out.append(Comp(p.base, body, True))
                off = off + p.base.n
            else:
                raise Unsupported("enumerate of a filtered sequence")
        return self._it(out)

    def seq_chain(self, c):
        return self._it(list(c.v.parts) + list(self.into_seq(c.args[0]).parts))

    def seq_rev(self, c):
        out = []
        for p in reversed(c.v.parts):
            out.append(p if isinstance(p, One) else Comp(p.base, p.body, p.total, not p.rev))
        return self._it(out)

    def seq_collect(self, c):
        t = c.tyargs[0] if c.tyargs else c.want
        return self.collect(c.v, t, c.fc)

    def seq_partition(self, c):
        f = self.apply(c.args[0])
        v = self.settle(c.v)
        a = compose(self.ctx, v, lambda x: [One(x)] if self.it.truth(f(x)) else [])
        b = compose(self.ctx, v, lambda x: [] if self.it.truth(f(x)) else [One(x)])
        return TupleV([SeqV(a.parts), SeqV(b.parts)])

    def seq_unzip(self, c):
        v = self.settle(c.v)

        def pick(i):
            return lambda x: self.field(x, str(i))
        return TupleV([seq_map(self.ctx, v, pick(0)), seq_map(self.ctx, v, pick(1))])

    def any_of(self, es):
        if any(e is True for e in es):
            return True
        es = [e for e in es if e is not False]
        return z3.Or(es) if es else False

    def each_of(self, c, f):
        """Formulas of a predicate on the elements of a known list, or None."""
        if not 1 < len(c.v.parts) or not all(isinstance(p, One) for p in c.v.parts):
            return None
        es = []
        for p in c.v.parts:
            try:
                e = f(p.v)
            except (Panic, Abort, Return, Break, Continue):
                if es:
                    raise Unsupported("control flow in a predicate")
                raise
            if not (isinstance(e, bool) or z3.is_expr(e)):
                return None
            es.append(e)
        return es

    def seq_any(self, c):
        f = self.apply(c.args[0])
        es = self.each_of(c, f)
        if es is not None:
            return self.any_of(es)
        sel = compose(self.ctx, c.v, lambda v: [One(v)] if self.it.truth(f(v)) else [])
        return self._exists(sel)

    def _exists(self, sel):
        """bool / formula: the selection is not empty (branches per part)."""
        for p in self.ctx.norm(sel):
            if isinstance(p, One):
                return True
            k = self.ctx.klass(p)
            if self.ctx.branch(k.cnt >= 1):
                return True
        return False

    def seq_all(self, c):
        f = self.apply(c.args[0])
        es = self.each_of(c, f)
        if es is not None:
            r = self.any_of([(not e) if isinstance(e, bool) else z3.Not(e) for e in es])
            return (not r) if isinstance(r, bool) else z3.Not(r)
        sel = compose(self.ctx, c.v, lambda v: [] if self.it.truth(f(v)) else [One(v)])
        return not self._exists(sel)

    def seq_find(self, c):
        f = self.apply(c.args[0])
        sel = compose(self.ctx, c.v, lambda v: [One(v)] if self.it.truth(f(v)) else [])
        x, rest = self.ctx.first(sel)
        return NONE if x is None else some(x)

    def seq_find_map(self, c):
        return self.seq_next(Call(self.seq_filter_map(c), None, [], c.n, c.fc))

    def seq_position(self, c):
        """Some(Obj "pos") for the first element satisfying the predicate; understood by skip and take."""
        f = self.apply(c.args[0])
        parts = self.ctx.norm(c.v)
        for i, p in enumerate(parts):
            if isinstance(p, One):
                if self.it.truth(f(p.v)):
                    if all(isinstance(q, One) for q in parts[:i]):
                        return some(i)
                    raise Unsupported("position")
                continue
            if p.rev or i:
                raise Unsupported("position")
            sel = Comp(p.base, (lambda e, p=p: _flat(p.body(e), lambda v: [One(v)] if self.it.truth(f(v)) else [])), False)
            k = self.ctx.klass(sel)
            if self.ctx.branch(k.cnt >= 1):
                return some(k.first if self.maybe_total(p).total else Obj("pos", (), {"comp": p, "at": k.first}))
        return NONE

    def from_position(self, c, keep):
        """The elements of a sequence before / from an element found by position()."""
        x = self.it.deref(c.args[0])
        parts = self.ctx.norm(c.v)
        if not parts or not isinstance(parts[0], Comp) or parts[0].rev:
            return None
        p = parts[0]
        if isinstance(x, Obj) and x.kind == "pos":
            q = x.meta["comp"]
            if not (self.ctx._same_base(q.base, p.base) and self.ctx.same_selection(q, p)):
                return None
            at = x.meta["at"]
        elif isinstance(x, z3.ArithRef) and self.maybe_total(p).total:
            at = x
        else:
            return None
        cut = Comp(p.base, (lambda e: p.body(e) if self.ctx.branch(keep(e.idx, at)) else []), False)
        return cut, parts[1:]

    def seq_next(self, c):
        x, rest = self.ctx.first(c.v)
        if c.place is not None:
            c.place.set(SeqV(rest.parts, "iter"))
        return NONE if x is None else some(x)

    def seq_first(self, c):
        x, rest = self.ctx.first(c.v)
        return NONE if x is None else some(x)

    def seq_split_first(self, c):
        x, rest = self.ctx.first(c.v)
        return NONE if x is None else some(TupleV([x, rest]))

    def seq_get(self, c):
        if c.args[0] == 0:
            return self.seq_first(c)
        parts = self.ctx.norm(c.v)
        if isinstance(c.args[0], int) and all(isinstance(p, One) for p in parts[:c.args[0] + 1]):
            if c.args[0] < len(parts):
                return some(parts[c.args[0]].v)
            return NONE
        if isinstance(c.args[0], int):
            return self.seq_nth(Call(c.v, None, c.args, c.n, c.fc))
        raise Unsupported("get")

    def seq_nth(self, c):
        n = c.args[0]
        if not isinstance(n, int) or n > 4:
            raise Unsupported("nth")
        s = c.v
        for _ in range(n + 1):
            x, s = self.ctx.first(s)
            if x is None:
                break
        if c.place is not None:
            c.place.set(SeqV(s.parts, "iter"))
        return NONE if x is None else some(x)

    def seq_last(self, c):
        parts = self.ctx.norm(c.v)
        while parts:
            p = parts[-1]
            if isinstance(p, One):
                return some(p.v)
            if p.total and not p.rev:
                if self.ctx.branch(p.base.n >= 1):
                    e = Elem(p.base, p.base.n - 1)
                    self.ctx.new_elem(p.base, idx=p.base.n - 1)
                    v = p.body(e)
                    return some(v[0].v)
                parts.pop()
                continue
            raise Unsupported("last of a filtered sequence")
        return NONE

    def seq_last_mut(self, c):
        parts = self.ctx.norm(c.v)
        if parts and isinstance(parts[-1], One):
            cell = RefV(lambda: self.ctx.norm(c.place.get())[-1].v,
                        lambda v: c.place.set(SeqV(parts[:-1] + [One(v)], c.v.kind)))
            return some(cell)
        raise Unsupported("last_mut")

    def seq_len(self, c):
        parts = self.ctx.norm(c.v)
        n = 0
        for p in parts:
            if isinstance(p, Comp) and not p.total and self.always_one(p):
                self.ctx.fact_path(p.base.n >= 0)
                k = p.base.n
            else:
                k = self.ctx.count(SeqV([p]))
            n = k if isinstance(n, int) and n == 0 else n + k
        return n

    seq_count = seq_len

    def seq_is_empty(self, c):
        n = self.ctx.count(c.v)
        return n == 0

    def seq_join(self, c):
        return self.join(c.v, self.it.deref(c.args[0]))

    def seq_concat(self, c):
        return self.join(c.v, "")

    def seq_push(self, c):
        c.place.set(SeqV(list(c.v.parts) + [One(c.args[0])], "vec"))
        return UNIT

    def seq_extend(self, c):
        s = self.settle(self.into_seq(c.args[0]))
        c.place.set(SeqV(list(c.v.parts) + list(s.parts), "vec"))
        return UNIT

    seq_append = seq_extend
    seq_extend_from_slice = seq_extend

    def seq_insert(self, c):
        if c.args[0] != 0:
            raise Unsupported("insert")
        c.place.set(SeqV([One(c.args[1])] + list(c.v.parts), "vec"))
        return UNIT

    def seq_pop(self, c):
        parts = self.ctx.norm(c.v)
        if not parts:
            return NONE
        if isinstance(parts[-1], One):
            c.place.set(SeqV(parts[:-1], "vec"))
            return some(parts[-1].v)
        raise Unsupported("pop")

    def seq_contains(self, c):
        x = c.args[0]
        ps = c.v.parts
        if all(isinstance(p, One) for p in ps):
            return self.any_of([self.eq(p.v, x) for p in ps])
        sel = compose(self.ctx, c.v, lambda v: [One(v)] if self.it.truth(self.eq(v, x)) else [])
        return self._exists(sel)

    def seq_binary_search(self, c):
        """In a constant list of strings which is sorted: found iff contained. The place of an absent element is left open."""
        ps = c.v.parts
        vs = [self.it.deref(p.v).const() if isinstance(p, One) and isinstance(self.it.deref(p.v), S) else None for p in ps]
        if not ps or None in vs:
            raise Unsupported("binary_search of a list which is no constant")
        b = [v.encode() for v in vs]
        if any(x >= y for x, y in zip(b, b[1:])):
            raise Unsupported("binary_search of a list which is not sorted")
        x = self.it.deref(c.args[0])
        if isinstance(x, S) and x.const() in vs:
            return ok(vs.index(x.const()))
        return ok(Obj("place")) if self.it.truth(self.any_of([self.eq(p.v, x) for p in ps])) else err(Obj("place"))

    def seq_skip_while(self, c):
        f = self.apply(c.args[0])
        parts = self.ctx.norm(c.v)
        for i, p in enumerate(parts):
            if isinstance(p, One):
                if not self.it.truth(f(p.v)):
                    return self._it(parts[i:])
                continue
            if p.rev:
                raise Unsupported("skip_while on reversed")
            sel = Comp(p.base, (lambda e, p=p: _flat(p.body(e), lambda v: [] if self.it.truth(f(v)) else [One(v)])), False)
            k = self.ctx.klass(sel)
            if self.ctx.branch(k.cnt >= 1):
                fst = k.first
                rest = Comp(p.base, (lambda e, p=p: p.body(e) if self.ctx.branch(e.idx >= fst) else []), False)
                return self._it([rest] + parts[i + 1:])
        return self._it([])

    def seq_take_while(self, c):
        f = self.apply(c.args[0])
        parts = self.ctx.norm(c.v)
        out = []
        for i, p in enumerate(parts):
            if isinstance(p, One):
                if not self.it.truth(f(p.v)):
                    return self._it(out)
                out.append(p)
                continue
            sel = Comp(p.base, (lambda e, p=p: _flat(p.body(e), lambda v: [] if self.it.truth(f(v)) else [One(v)])), False)
            k = self.ctx.klass(sel)
            if self.ctx.branch(k.cnt >= 1):
                fst = k.first
                out.append(Comp(p.base, (lambda e, p=p: p.body(e) if self.ctx.branch(e.idx < fst) else []), False))
                return self._it(out)
            out.append(p)
        return self._it(out)

    def seq_skip(self, c):
        s = c.v
        if not isinstance(c.args[0], int):
            r = self.from_position(c, lambda i, at: i >= at)
            if r is None:
                raise Unsupported("skip")
            return self._it([r[0]] + r[1])
        for _ in range(c.args[0]):
            x, s = self.ctx.first(s)
            if x is None:
                return self._it([])
        return self._it(s.parts)

    def seq_take(self, c):
        s = c.v
        out = []
        if not isinstance(c.args[0], int):
            r = self.from_position(c, lambda i, at: i < at)
            if r is None or r[1]:
                raise Unsupported("take")
            return self._it([r[0]])
        for _ in range(c.args[0]):
            x, s = self.ctx.first(s)
            if x is None:
                break
            out.append(One(x))
        return self._it(out)

    def seq_fold(self, c):
        parts = self.ctx.norm(c.v)
        acc = Box_(c.args[0])
        f = c.args[1]

        def step(v):
            self.it.write_box(acc, self.it.call(f, [acc.v, v]))
        self.run_over(parts, step)
        return acc.v

    def seq_for_each(self, c):
        self.run_over(self.ctx.norm(c.v), lambda v: self.it.call(c.args[0], [v]))
        return UNIT

    def seq_try_for_each(self, c):
        raise Unsupported("try_for_each")

    def seq_reduce(self, c):
        raise Unsupported("reduce")

    def seq_sum(self, c):
        raise Unsupported("sum")

    def seq_max(self, c):
        raise Unsupported("max")

    seq_min = seq_max

    def seq_sort(self, c):
        raise Unsupported("sort")

    seq_sort_by = seq_sort_by_key = seq_dedup = seq_retain = seq_sort_unstable = seq_sort

    def seq_drain(self, c):
        c.place.set(SeqV([], "vec"))
        return self._it(c.v.parts)

    def seq_to_string(self, c):
        return self.to_s(c.v)

    # ------------------------------------------------------------------ loops
    def for_loop(self, n, env, fc):
        seq = self.into_seq(self.it.eval(n.e, env, fc))
        label = getattr(n, "label", None)

        def step(v):
            e = Env(env)
            if not self.it.match(n.pat, v, e, fc, irrefutable=True):
                raise Unsupported("refutable loop pattern")
            try:
                self.it.eval(n.body, e, fc)
            except Continue as c:
                if c.label is not None and c.label != label:
                    raise
        try:
            self.run_over(self.ctx.norm(seq), step)
        except Break as b:
            if b.label is not None and b.label != label:
                raise
        return UNIT

    def run_over(self, parts, step):
        for p in parts:
            if isinstance(p, One):
                step(p.v)
            elif getattr(self.it, "loop_over", None) is not None and self.it.loop_over(p, step):
                pass
            else:
                self.summarise(p, step)

    def summarise(self, p, step):
        """A loop over an unbounded sequence, by an inferred invariant (see DESIGN: loop rules)."""
        ctx = self.ctx
        if p.rev:
            raise Unsupported("loop over a reversed sequence")
        import core
        born = core._stamp[0]

        def run_at(e, setup):
            """Execute the body at e with accumulators set up; returns (writes, control) and undoes all."""
            mark = len(ctx.undo)
            saved = []
            try:
                for b, v in setup:
                    ctx.write(b, v)
                ctl = None
                try:
                    for q in p.body(e):
                        if not isinstance(q, One):
                            raise Unsupported("loop over nested sequence")
                        step(q.v)
                except (Return, Break, Panic, Abort) as x:
                    ctl = x
                out = {}
                for b, old in ctx.undo[mark:]:
                    if b.stamp <= born:
                        out[id(b)] = (b, b.v)
                return out, ctl
            finally:
                while len(ctx.undo) > mark:
                    b, old = ctx.undo.pop()
                    b.v = old

        # round 1: which variables are written
        written = {}
        exits = False
        while True:
            # later elements may see other flags than the first one does
            any_flag = [(b, z3.Bool(ctx.fresh("flag"))) for b in written.values() if isinstance(b.v, bool)]
            known = len(written)
            res = ctx.explore(lambda: run_at(ctx.new_elem(p.base, "w"), any_flag))
            for conds, kind, r in res:
                if kind != "ok":
                    raise Unsupported("control flow in loop body")
                for k, (b, v) in r[0].items():
                    if b.v is not v:
                        written[k] = b
            exits = exits or any(r[1] is not None for _, _, r in res)
            if len(written) == known:
                break
        if ctx.trace and False:
            raise Unsupported("effects in loop")

        accs = []      # (box, kind, marker)
        flags = []
        for k, b in written.items():
            v0 = b.v
            if isinstance(v0, bool):
                flags.append(b)
            elif isinstance(v0, S):
                accs.append((b, "str", ctx.fresh("acc")))
            elif isinstance(v0, SeqV):
                accs.append((b, "seq", ctx.fresh("acc")))
            elif isinstance(v0, TokV):
                accs.append((b, "tok", ctx.fresh("acc")))
            elif isinstance(v0, MapV):
                accs.append((b, "map", ctx.fresh("acc")))
            elif isinstance(v0, EnumV) and v0.enum == "Option" and v0.variant == "None":
                accs.append((b, "opt", ctx.fresh("acc")))
            else:
                raise Unsupported("loop modifies %r" % (v0,))

        start = {id(b): b.v for b in written.values()}

        def acc_setup():
            out = []
            for b, kind, mk in accs:
                if kind == "str":
                    out.append((b, S(Hole(mk))))
                elif kind == "seq":
                    out.append((b, SeqV([One(Marker(mk))], "vec")))
                elif kind == "tok":
                    out.append((b, TokV([Marker(mk)])))
                elif kind == "map":
                    import map_model
                    out.append((b, map_model.marker_map(start[id(b)], mk)))
                elif kind == "opt":
                    pass
            return out

        # flags: only ever set to the opposite of their initial value
        flag_k = {}
        flag_v0 = {id(b): b.v for b in flags}
        for b in flags:
            v0 = b.v

            def sel_body(e, b=b, v0=v0):
                out, ctl = run_at(e, acc_setup())
                w = out.get(id(b))
                return [One(True)] if w is not None and w[1] is not v0 and w[1] != v0 else []
            for conds, kind, r in ctx.explore(lambda: run_at(ctx.new_elem(p.base, "w"), acc_setup())):
                w = r[0].get(id(b))
                if w is not None and not isinstance(w[1], bool):
                    raise Unsupported("loop computes a flag from data")
            if len(flags) > 1:
                raise Unsupported("several flags in one loop")
            flag_k[id(b)] = ctx.klass(Comp(p.base, sel_body, False))

        def flag_setup(e):
            out = []
            for b in flags:
                k = flag_k[id(b)]
                was = z3.And(k.cnt >= 1, k.first < e.idx)
                out.append((b, was if flag_v0[id(b)] is False else z3.Not(was)))
            return out

        # the first element that leaves the loop
        limit = None
        opts = [b for b, kind, mk in accs if kind == "opt"]
        if opts:
            raise Unsupported("loop sets an Option")
        if exits:
            def exit_body(e):
                out, ctl = run_at(e, acc_setup() + flag_setup(e))
                return [One(True)] if ctl is not None else []
            ke = ctx.klass(Comp(p.base, exit_body, False))
            if ctx.branch(ke.cnt >= 1):
                limit = ke.first

        def bounded(body):
            if limit is None:
                def b2(e):
                    return body(e)
            else:
                def b2(e):
                    return body(e) if ctx.branch(e.idx < limit) else []
            return b2

        # accumulators: appended to at every element
        finals = []
        folds = set()
        for b, kind, mk in accs:
            def delta(e, b=b, kind=kind, mk=mk):
                out, ctl = run_at(e, acc_setup() + flag_setup(e))
                if ctl is not None:
                    raise Infeasible()
                w = out.get(id(b))
                if w is None:
                    return []
                v = w[1]
                if kind == "str":
                    if not (isinstance(v, S) and v.parts and isinstance(v.parts[0], Hole) and v.parts[0].fn == mk):
                        raise Unsupported("string variable is not only appended to")
                    d = S(*v.parts[1:])
                    if deep_has(d, mk):
                        raise Unsupported("appended text depends on the accumulator")
                    return [One(d)] if d.parts else []
                if kind == "seq":
                    if not (isinstance(v, SeqV) and v.parts and isinstance(v.parts[0], One) and
                            isinstance(v.parts[0].v, Marker)):
                        raise Unsupported("vector is not only appended to")
                    d = v.parts[1:]
                    if deep_has(d, mk):
                        raise Unsupported("appended element depends on the accumulator")
                    return d
                if kind == "tok":
                    if not (isinstance(v, TokV) and v.toks and isinstance(v.toks[0], Marker)):
                        raise Unsupported("tokens are not only appended to")
                    return [One(TokV(list(v.toks[1:])))] if len(v.toks) > 1 else []
                if kind == "map":
                    import map_model
                    return map_model.delta(v, mk)
            # does the text depend on the accumulated value?
            dep = False
            for conds, k2, r in ctx.explore(lambda: run_at(ctx.new_elem(p.base, "w"), acc_setup())):
                if any(mk in str(c) for c in conds):
                    dep = True
            if dep:
                if kind != "str" or len(accs) > 1 or flags or exits:
                    raise Unsupported("loop state feeds back into the loop")

                def fold_step(acc, e, b=b):
                    out, ctl = run_at(e, [(b, acc)])
                    return out[id(b)][1] if id(b) in out else acc
                finals.append((b, S(Fold(p, b.v, fold_step))))
                continue
            total = False
            comp = Comp(p.base, bounded(delta), False)
            if kind == "str":
                v0 = b.v
                finals.append((b, S(v0, self.separated(comp) or Join("", SeqV([comp])))))
            elif kind == "seq":
                finals.append((b, SeqV(list(b.v.parts) + [self.maybe_total(comp)], "vec")))
            elif kind == "tok":
                from rlex import Tok
                finals.append((b, TokV(list(b.v.toks) + [Tok("seq", SeqV([comp]), d="")])))
            elif kind == "map":
                import map_model
                finals.append((b, map_model.extended(b.v, comp)))
        for b in flags:
            k = flag_k[id(b)]
            was = k.cnt >= 1 if limit is None else z3.And(k.cnt >= 1, k.first < limit)
            finals.append((b, was if b.v is False else z3.Not(was)))
        for b, v in finals:
            self.it.write_box(b, v)
        if limit is not None:
            for q in p.body(Elem(p.base, limit)):
                step(q.v)
            raise Infeasible()

    def separated(self, comp):
        """Texts of which all but the first begin with the same separator, as a join."""
        if not self.maybe_total(comp).total:
            return None
        ctx = self.ctx

        def at(first):
            def run():
                e = ctx.new_elem(comp.base, "s")
                ctx.assume(e.idx == 0 if first else e.idx > 0)
                return comp.body(e)[0].v.parts
            res = ctx.explore(run)
            return [r for _, k, r in res] if all(k == "ok" for _, k, _ in res) else None
        one, more = at(True), at(False)
        if not one or not more:
            return None

        def lead(x):
            return x[0] if x and isinstance(x[0], str) else ""
        sep = lead(more[0])[:len(lead(more[0])) - len(lead(one[0]))]
        if not sep or not all(lead(x).startswith(sep) for x in more) or all(lead(x).startswith(sep) for x in one):
            return None

        def body(e):
            d = comp.body(e)[0].v
            if ctx.branch(e.idx > 0):
                d = S(d.parts[0][len(sep):], *d.parts[1:])
            return [One(d)]
        return Join(S(sep), SeqV([Comp(comp.base, body, True)]))

    def maybe_total(self, comp):
        """Mark a comprehension total when every element yields exactly one value."""
        try:
            res = self.ctx.explore(lambda: comp.body(self.ctx.new_elem(comp.base, "t")))
        except Unsupported:
            return comp
        if all(k == "ok" and len(v) == 1 and isinstance(v[0], One) for _, k, v in res):
            comp.total = True
        return comp

    def while_loop(self, n, env, fc):
        for h in self.it.extra_methods:
            r = h(self.it, n, "$while", [env, fc], n, None)
            if r is not NotImplemented:
                return r
        # concrete loops only
        label = getattr(n, "label", None)
        for _ in range(64):
            e = Env(env)
            before = len(self.ctx.frames[-1].conds) if self.ctx.frames else 0
            c = self.it.cond(n.c, e, fc)
            if self.ctx.frames and len(self.ctx.frames[-1].conds) != before:
                raise Unsupported("while loop with unknown condition (line %s)" % n.line)
            if not c:
                return UNIT
            try:
                self.it.eval(n.body, e, fc)
            except Continue as x:
                if x.label is not None and x.label != label:
                    raise
            except Break as b:
                if b.label is not None and b.label != label:
                    raise
                return UNIT
        raise Unsupported("while loop without known bound")

    def plain_loop(self, n, env, fc):
        for h in self.it.extra_methods:
            r = h(self.it, n, "$loop", [env, fc], n, None)
            if r is not NotImplemented:
                return r
        label = getattr(n, "label", None)
        for _ in range(64):
            e = Env(env)
            try:
                self.it.eval(n.body, e, fc)
            except Continue as x:
                if x.label is not None and x.label != label:
                    raise
            except Break as b:
                if b.label is not None and b.label != label:
                    raise
                return b.v
        raise Unsupported("loop without known bound")

    def splice_arms(self, it, arm, v, env, fc):
        for h in it.extra_methods:
            r = h(it, v, "$splicearms", [arm, env, fc], arm, None)
            if r is not NotImplemented:
                return r
        raise Unsupported("spliced match arms")

    # ------------------------------------------------------------------ external paths
    def ext_value(self, path, targs, fc, n):
        segs = path.split("::")
        last = segs[-1]
        h = self.it.extra_ext.get(path) or self.it.extra_ext.get("::".join(segs[-2:])) or self.it.extra_ext.get(last)
        if last == "None":
            return NONE
        if last in ("Some", "Ok", "Err"):
            return PyFn(lambda v: EnumV("Option" if last == "Some" else "Result", last, (v,)), last)
        if h is not None:
            return PyFn(lambda *a: h(self.it, list(a), None, fc))
        f = self.ext_fn(path)
        if f is not None:
            return PyFn(lambda *a: f(list(a), targs, fc, None))
        if len(segs) >= 2 and segs[-2][:1].isupper() and last[:1].isupper():
            return EnumV(segs[-2], last, ())
        if len(segs) >= 2 and segs[-2][:1].isupper():
            # a method used as a function value: Type::method
            return PyFn(lambda *a: self.method(a[0], last, list(a[1:]), n, fc))
        if len(segs) >= 2 and segs[-2] == "char":
            return PyFn(lambda *a: self.method(a[0], last, list(a[1:]), n, fc))
        if len(segs) == 2 and segs[0] in INT_RANGES:
            if last == "MAX":
                return INT_RANGES[segs[0]][1]
            if last == "MIN":
                return INT_RANGES[segs[0]][0]
        raise Unsupported("external path %s" % path)

    def ext_assoc(self, t, trait, name, fc, n):
        raise Unsupported("associated item %r::%s" % (t, name))

    def ext_call(self, path, targs, argnodes, env, fc, n, want):
        segs = path.split("::")
        args = self.it.eval_args(argnodes, env, fc)
        h = self.it.extra_ext.get(path) or self.it.extra_ext.get("::".join(segs[-2:])) or \
            self.it.extra_ext.get(segs[-1])
        if h is not None:
            self.cur_targs = targs
            self.cur_want = want
            r = h(self.it, args, want, fc)
            if r is not NotImplemented:
                return r
        f = self.ext_fn(path)
        if f is not None:
            return f(args, targs, fc, want)
        last = segs[-1]
        if last in ("Some",):
            return some(args[0])
        if last == "Ok":
            return ok(args[0])
        if last == "Err":
            return err(args[0])
        if len(segs) >= 2 and segs[-2][:1].isupper() and last[:1].isupper():
            return EnumV(segs[-2], last, tuple(args))
        if len(segs) >= 2 and (segs[-2][:1].isupper() or segs[-2] in ("str", "char", "slice")) and args:
            return self.method(args[0], last, args[1:], n, fc, want=want)
        raise Unsupported("call of external function %s (line %s)" % (path, getattr(n, "line", "?")))

    def ext_fn(self, path):
        segs = path.split("::")
        k = "::".join(segs[-2:])
        return {
            "String::new": lambda a, t, fc, w: S(),
            "String::from": lambda a, t, fc, w: self.to_s(a[0]),
            "String::with_capacity": lambda a, t, fc, w: S(),
            "String::default": lambda a, t, fc, w: S(),
            "String::from_utf8": None,
            "Vec::new": lambda a, t, fc, w: SeqV([], "vec"),
            "Vec::with_capacity": lambda a, t, fc, w: SeqV([], "vec"),
            "Vec::from": lambda a, t, fc, w: self.into_seq(a[0]),
            "Vec::from_iter": lambda a, t, fc, w: self.collect(self.into_seq(a[0]), None, fc),
            "String::from_iter": lambda a, t, fc, w: self.join(self.into_seq(a[0]), ""),
            "Box::new": lambda a, t, fc, w: a[0],
            "Arc::new": lambda a, t, fc, w: a[0],
            "Rc::new": lambda a, t, fc, w: a[0],
            "Cow::Borrowed": lambda a, t, fc, w: a[0],
            "Cow::Owned": lambda a, t, fc, w: a[0],
            "Cow::from": lambda a, t, fc, w: a[0],
            "HashMap::new": lambda a, t, fc, w: self.new_map("HashMap", t, w, fc),
            "BTreeMap::new": lambda a, t, fc, w: self.new_map("BTreeMap", t, w, fc),
            "HashMap::default": lambda a, t, fc, w: self.new_map("HashMap", t, w, fc),
            "BTreeMap::default": lambda a, t, fc, w: self.new_map("BTreeMap", t, w, fc),
            "Default::default": lambda a, t, fc, w: self.default(w, fc),
            "iter::once": lambda a, t, fc, w: SeqV([One(a[0])], "iter"),
            "iter::empty": lambda a, t, fc, w: SeqV([], "iter"),
            **{k + "::from": lambda a, t, fc, w: self.lossless(a, False) for k in
               ("u16", "u32", "u64", "u128", "usize", "i16", "i32", "i64", "i128", "isize")},
            "char::from": lambda a, t, fc, w: self.lossless(a, True),
            "mem::take": lambda a, t, fc, w: self.mem_take(a[0]),
            "mem::replace": lambda a, t, fc, w: self.mem_replace(a[0], a[1]),
            "drop": lambda a, t, fc, w: UNIT,
            "mem::drop": lambda a, t, fc, w: UNIT,
        }.get(k) or ({"drop": lambda a, t, fc, w: UNIT}.get(path))

    def mem_take(self, p):
        v = self.it.deref(p)
        if isinstance(v, S):
            p.set(S())
        elif isinstance(v, SeqV):
            p.set(SeqV([], v.kind))
        elif isinstance(v, EnumV) and v.enum == "Option":
            p.set(NONE)
        else:
            raise Unsupported("mem::take")
        return v

    def mem_replace(self, p, x):
        v = self.it.deref(p)
        p.set(x)
        return v

    def new_map(self, name, targs, want, fc):
        import map_model
        ts = list((targs or ((), ()))[0] or ())
        if len(ts) < 2 and want is not None and want.kind == "path" and want.segs[-1][1]:
            ts = self.it.types_of(want.segs[-1][1], fc)
        return MapV(name, (), map_model.kinds(ts[1]) if len(ts) >= 2 else None)

    def default(self, want, fc):
        if want is None:
            return Obj("default")
        if want.kind == "path":
            nm = want.segs[-1][0]
            if nm == "String":
                return S()
            if nm in ("HashMap", "BTreeMap"):
                return self.new_map(nm, None, want, fc)
            if nm == "Vec":
                return SeqV([], "vec")
            if nm == "bool":
                return False
            if nm == "Option":
                return NONE
        for h in self.it.extra_methods:
            r = h(self.it, None, "$default", [want, fc], None, None)
            if r is not NotImplemented:
                return r
        return Obj("default")


STYLES = {"is_tuple": "Tuple", "is_struct": "Struct", "is_unit": "Unit"}


class Call:
    __slots__ = ("v", "place", "args", "n", "fc", "tyargs", "want", "env")

    def __init__(self, v, place, args, n, fc, tyargs=None, want=None, env=None):
        self.v = v
        self.place = place
        self.args = args
        self.n = n
        self.fc = fc
        self.tyargs = tyargs
        self.want = want
        self.env = env


IDENTITY = {"clone", "to_owned", "as_ref", "as_str", "as_deref", "borrow", "into_owned", "to_string_lossy",
            "into_boxed_str", "into_string", "as_mut_str", "into_inner", "as_mut", "into_iter_", "cloned", "copied",
            "deref", "by_ref", "into_boxed_slice", "to_vec", "as_slice", "borrow_mut"}
NONEMPTY_HOLES = {"name", "schema", "inline_schema", "inline", "type_def", "chr", "hex", "int"}
ENUM_ALIAS = set()
INT_RANGES = {}
for _b in (8, 16, 32, 64, 128):
    INT_RANGES["u%d" % _b] = (0, 2 ** _b - 1)
    INT_RANGES["i%d" % _b] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)


def _flat(parts, f):
    out = []
    for q in parts:
        if isinstance(q, One):
            out.extend(f(q.v))
        else:
            out.append(Comp(q.base, (lambda e, q=q: _flat(q.body(e), f)), False, q.rev))
    return out


def path_segments(v):
    """Segments of the path of an opaque type: some, then one whose identifier is a function of the type."""
    toks = list(v.toks)
    if len(toks) != 1 or not isinstance(toks[0], Tok):
        return None
    if toks[0].k == "id" or (toks[0].k == "hole" and isinstance(toks[0].v, Ident)):
        idt = Ident(S(toks[0].v)) if toks[0].k == "id" else toks[0].v
        return SeqV([One(StructV("syn::PathSegment", {"ident": idt, "arguments": Obj("pathargs")}))], "vec")
    if toks[0].k != "hole" or not isinstance(toks[0].v, TypeV):
        return None
    t = toks[0].v.t
    if t[0] != "obj":
        return None
    o = t[1]

    def seg(fn, *more):
        return StructV("syn::PathSegment", {"ident": Ident(S(Hole(fn + o.kind, tuple(o.args) + more))), "arguments": Obj("pathargs")})
    pre = Base("tysegs:" + o.kind, tuple(o.args), lambda i: None)
    return SeqV([Comp(pre, lambda e: [One(seg("tyseg:", e.idx))], True), One(seg("tylast:"))], "vec")
