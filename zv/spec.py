"""What the derive has to produce for a declaration, written from the properties.

The functions are evaluated on an arbitrary declaration (facts are uninterpreted, the result is compared
with what the real code computes symbolically) and on concrete declarations (facts are booleans, the
result is compared with what the real code prints).
"""
from core import *


def tyargs(t):
    return (t[1].kind,) + tuple(t[1].args)


def ref_schema(t):
    """Reference to a type inside a schema."""
    return S(Hole("inline_schema", tyargs(t)))


def ref_type(t):
    """Reference to a type inside a type."""
    return S(Hole("inline", tyargs(t)))


def key(s):
    return S(Hole("key", (s,)))


def lit(s):
    return S(Hole("strlit", (s,)))


class Spec:
    def __init__(self, ctx, D):
        self.ctx = ctx
        self.D = D
        self.b = ctx.branch

    # -- shared -----------------------------------------------------------------------
    def pick(self, seq_fn, pred, out):
        """The elements with `pred`, as texts."""
        def body(x):
            return [One(out(x))] if pred(x) else []
        return compose(self.ctx, seq_fn(lambda f: f), body)

    def optional(self, f, container=False):
        """serde fills in a default when the value is missing (never for flattened fields)."""
        if self.b(f.flatten):
            return False
        if container and self.b(self.D.default_tag != 0):
            return True
        return self.b(f.has_default)

    def elem_schema(self, f):
        return S(ref_schema(f.ty), ".optional()") if self.optional(f) else ref_schema(f.ty)

    def elem_type(self, f):
        return S(ref_type(f.ty), " | undefined") if self.optional(f) else ref_type(f.ty)

    def entry_schema(self, f, container):
        s = S(key(f.name), ": ", ref_schema(f.ty))
        return S(s, ".optional()") if self.optional(f, container) else s

    def entry_type(self, f, container):
        if self.optional(f, container):
            return S(key(f.name), "?: ", ref_type(f.ty), " | undefined")
        return S(key(f.name), ": ", ref_type(f.ty))

    def read(self, f):
        return not self.b(f.skip)

    def plain(self, f):
        return self.read(f) and not self.b(f.flatten)

    def flat(self, f):
        return self.read(f) and self.b(f.flatten)

    def entries(self, seq_fn, kind, container):
        out = self.entry_schema if kind == "schema" else self.entry_type
        return self.pick(seq_fn, self.plain, lambda f: out(f, container))

    def extensions(self, seq_fn, kind):
        if kind == "schema":
            out = lambda f: S(".extend(", ref_schema(f.ty), ")")
        else:
            out = lambda f: S(" & ", ref_type(f.ty))
        return S(Join("", self.pick(seq_fn, self.flat, out)))

    def elems(self, seq_fn, kind):
        out = self.elem_schema if kind == "schema" else self.elem_type
        return self.pick(seq_fn, self.read, out)

    # -- containers -------------------------------------------------------------------
    def schema(self):
        return self.container("schema")

    def type_def(self):
        return self.container("type")

    def container(self, kind):
        D, b = self.D, self.b
        ref = ref_schema if kind == "schema" else ref_type
        if b(D.has_from):
            return ref(("obj", Obj("fromty")))
        if b(D.has_try):
            return ref(("obj", Obj("tryfromty")))
        if D.kind == "enum":
            return self.enum(kind)
        if b(D.transparent):
            f, _ = self.ctx.first(compose(self.ctx, D.field_seq(), lambda f: [One(f)] if b(f.transparent) else []))
            if f is None:
                raise Infeasible()
            return ref(f.ty)
        if D.kind == "tuple":
            if b(D.base.n == 1):
                f = D.field_at(0)
                return self.elem_schema(f) if kind == "schema" else self.elem_type(f)
            es = self.elems(lambda g: D.field_seq(), kind)
            return S("z.tuple([", Join(", ", es), "])") if kind == "schema" else S("[", Join(", ", es), "]")
        es = Join(", ", self.entries(lambda g: D.field_seq(), kind, True))
        ext = self.extensions(lambda g: D.field_seq(), kind)
        if kind == "schema":
            return S("z.object({", es, "})", ext)
        return S("{", es, "}", ext)

    def may_be_interface(self):
        """An interface declaration can only hold a plain object type."""
        D, b = self.D, self.b
        if D.kind != "struct" or b(D.has_from) or b(D.has_try) or b(D.transparent):
            return False
        fl = compose(self.ctx, D.field_seq(), lambda f: [One(f)] if self.flat(f) else [])
        return not b(self.ctx.nonempty(fl))

    # -- enums ------------------------------------------------------------------------
    TAGS = ["External", "Internal", "Adjacent", "None"]

    def tag(self):
        t = self.D.tag_kind
        for i in range(3):
            if self.b(t == i):
                return self.TAGS[i]
        return "None"

    def readable(self):
        return compose(self.ctx, self.D.variant_seq(), lambda v: [] if self.b(v.skip) else [One(v)])

    def has_content(self, v):
        """A newtype variant whose field is read."""
        if not self.b(v.style_tag == 1) or not self.b(v.count == 1):
            return False
        return not self.b(v.field_at(0).skip)

    def empty(self):
        n = self.ctx.count(self.readable())
        return self.b(n == 0)

    def enum(self, kind):
        ctx = self.ctx
        r = self.readable()
        n = ctx.count(r)
        if self.b(n == 0):
            raise Infeasible()
        if self.b(n == 1):
            v, _ = ctx.first(r)
            if v is None:
                raise Infeasible()
            return self.variant(v, kind, self.tag())
        tag = self.tag()
        alts = compose(ctx, r, lambda v: [One(self.variant(v, kind, tag))])
        if kind == "type":
            return S(Join(" | ", alts))
        if tag == "Internal":
            newtypes = compose(ctx, r, lambda v: [One(v)] if self.has_content(v) else [])
            union = self.b(ctx.nonempty(newtypes))
        else:
            union = tag != "Adjacent"
        if union:
            return S("z.union([", Join(", ", alts), "])")
        return S("z.discriminatedUnion(", lit(self.D.tag_name), ", [", Join(", ", alts), "])")

    def variant(self, v, kind, tag):
        b, D = self.b, self.D
        sch = kind == "schema"
        name = v.name
        T, C = key(D.tag_name), key(D.content_name)
        literal = S("z.literal(", lit(name), ")") if sch else lit(name)
        obj = (lambda *x: S("z.object({ ", *x, " })")) if sch else (lambda *x: S("{ ", *x, " }"))

        if b(v.style_tag == 2) or b(v.style_tag == 1) and b(v.count == 1) and not self.has_content(v):
            return {"External": lambda: literal,
                    "Internal": lambda: obj(T, ": ", literal),
                    "Adjacent": lambda: obj(T, ": ", literal),
                    "None": lambda: S("z.null()" if sch else "null")}[tag]()
        if b(v.style_tag == 1):
            if b(v.count == 1):
                f = v.field_at(0)
                content = self.elem_schema(f) if sch else self.elem_type(f)
            else:
                es = self.elems(lambda g: v.field_seq(), kind)
                content = S("z.tuple([", Join(", ", es), "])") if sch else S("[", Join(", ", es), "]")
            if tag == "External":
                return obj(key(name), ": ", content)
            if tag == "Internal":
                return S("z.intersection(", obj(T, ": ", literal), ", ", content, ")") if sch \
                    else S(obj(T, ": ", literal), " & ", content)
            if tag == "Adjacent":
                return obj(T, ": ", literal, ", ", C, ": ", content)
            return content
        es = self.entries(lambda g: v.field_seq(), kind, False)
        ext = self.extensions(lambda g: v.field_seq(), kind)
        if tag == "Internal":
            fields = SeqV([One(S(T, ": ", literal))] + list(es.parts))
            return S(obj(Join(", ", fields)), ext)
        content = S(obj(Join(", ", es)), ext)
        if tag == "External":
            return obj(key(name), ": ", content)
        if tag == "Adjacent":
            return obj(T, ": ", literal, ", ", C, ": ", content)
        return content
