"""An arbitrary declaration handed to the derive macros, and models of what syn, serde_derive_internals
and darling answer about it.

Every fact about the declaration (names, styles, attributes, number of fields, ..) is an uninterpreted
function of the position, constrained only by the rules serde and darling enforce before the derive
sees the declaration.
"""
import z3
from core import *
from interp import Interp, Env, FCtx, Meaning
from rlex import Tok
from rparse import N, P
from program import Module, Defn

IntS, BoolS = z3.IntSort(), z3.BoolSort()


_ZF = {}


def zf(name, args, sort=BoolS):
    """Uninterpreted function application (a constant without arguments)."""
    key = (name, sort is BoolS, tuple(a if isinstance(a, int) else a.get_id() for a in args))
    r = _ZF.get(key)
    if r is None:
        if not args:
            r = z3.Const(name, sort)
        else:
            r = z3.Function(name, *([IntS] * len(args)), sort)(*args)
        _ZF[key] = (r, args)
        return r
    return r[0]


_FACTS = {}


def cached_facts(key, mk):
    """Terms of the facts about one position (built once; keys keep their arguments alive)."""
    k = tuple(a.get_id() if isinstance(a, z3.ExprRef) else a for a in key)
    r = _FACTS.get(k)
    if r is None:
        r = (mk(), key)
        _FACTS[k] = r
    return r[0]


def hole(fn, args=()):
    return S(Hole(fn, tuple(args)))


def idx_of(x):
    return x if not isinstance(x, int) else z3.IntVal(x)


class Field:
    """One field of a struct or variant (symbolic). args: positions identifying it."""

    def __init__(self, decl, base, args, style):
        self.decl = decl
        self.p = "v" if len(args) == 2 else ""
        self.args = args
        self.style = style          # 'Struct' | 'Tuple'

    # -- facts (also used by the specification)
    @property
    def skip(self):
        return zf(self.p + "f_skip", self.args)

    @property
    def flatten(self):
        return zf(self.p + "f_flatten", self.args)

    @property
    def transparent(self):
        return zf(self.p + "f_transparent", self.args)

    @property
    def default_tag(self):
        return zf(self.p + "f_default", self.args, IntS)

    @property
    def has_default(self):
        return self.default_tag != 0

    @property
    def name(self):
        return hole(self.p + "fname", self.args)

    @property
    def ty(self):
        return ("obj", Obj(self.p + "fty", self.args))

    @property
    def ident(self):
        return Ident(hole(self.p + "fident", self.args))


class Variant:
    def __init__(self, decl, v):
        self.decl = decl
        self.v = v

    @property
    def skip(self):
        return zf("v_skip", [self.v])

    @property
    def style_tag(self):
        return zf("v_style", [self.v], IntS)     # 0 Struct 1 Tuple 2 Unit

    @property
    def name(self):
        return hole("vname", [self.v])

    @property
    def ident(self):
        return Ident(hole("vident", [self.v]))

    @property
    def count(self):
        return self.decl.vbase(self.v).n

    def field_seq(self):
        return self.decl.vseq(self.v, lambda i: self.decl.vf(self.v, i))

    def field_at(self, i):
        return self.decl.vf(self.v, z3.IntVal(i))


STYLES = ["Struct", "Tuple", "Unit"]
SERDE_STYLES = ["Struct", "Tuple", "Newtype", "Unit"]


class Decl:
    """kind: 'struct' | 'tuple' | 'enum' | 'ns' (unit struct for Namespace) | 'backend'."""

    def __init__(self, it, kind):
        self.it = it
        self.ctx = it.ctx
        self.kind = kind
        self._vb = {}
        if kind in ("struct", "tuple"):
            self.base = Base("fields", (), self.mk_field)
        elif kind == "enum":
            self.base = Base("variants", (), self.mk_variant)
        else:
            self.base = Base("fields", (), self.mk_field)
        self.ident = Ident(hole("ident"))
        self.ns = ("obj", Obj("nspath"))
        self.name = hole("cname")

    # -- container facts
    transparent = property(lambda s: zf("c_transparent", []))
    default_tag = property(lambda s: zf("c_default", [], IntS))
    tag_kind = property(lambda s: zf("c_tag", [], IntS))          # External Internal Adjacent None
    has_from = property(lambda s: zf("c_from", []))
    has_try = property(lambda s: zf("c_try_from", []))

    def assume(self):
        """Rules enforced by serde and darling before expansion starts."""
        c = self.ctx
        c.fact_path(z3.And(self.base.n >= 0))
        c.fact_path(z3.And(self.tag_kind >= 0, self.tag_kind <= 3))
        c.fact_path(z3.And(self.default_tag >= 0, self.default_tag <= 2))
        c.fact_path(z3.Not(z3.And(self.has_from, self.has_try)))
        c.fact_path(z3.Implies(self.transparent, z3.And(z3.Not(self.has_from), z3.Not(self.has_try))))
        c.fact_path(hole_t("tag") != hole_t("content"))
        if self.kind != "struct":
            c.fact_path(self.default_tag == 0)
        if self.kind == "enum":
            c.fact_path(z3.Not(self.transparent))
        else:
            c.fact_path(z3.Implies(self.transparent, self.base.n >= 1))
            c.fact_path(z3.Implies(self.transparent, self.default_tag == 0))
            # exactly one field is the transparent one
            self.tcomp = Comp(self.base, lambda e: [One(True)] if c.branch(self.field(e.idx).transparent) else [], False)
            k = c.klass(self.tcomp)
            c.fact_path(z3.If(self.transparent, k.cnt == 1, k.cnt == 0))

    def facts(self, f):
        def mk():
            out = [z3.And(f.default_tag >= 0, f.default_tag <= 2)]
            if f.style != "Struct":
                out.append(z3.Not(f.flatten))
            if f.p == "":
                out.append(z3.Implies(f.transparent, z3.And(self.transparent, z3.Not(f.skip), f.default_tag == 0)))
            else:
                out.append(z3.Not(f.transparent))
            return out
        for x in cached_facts(("field", f.style, f.p) + tuple(f.args), mk):
            self.ctx.fact_path(x)

    # -- elements
    def field(self, i):
        f = Field(self, self.base, (i,), "Struct" if self.kind in ("struct", "backend_named") else "Tuple")
        self.facts(f)
        return f

    def variant(self, v):
        x = Variant(self, v)

        def mk():
            b = self.vbase(v)
            return [z3.And(x.style_tag >= 0, x.style_tag <= 2), b.n >= 0,
                    z3.Implies(x.style_tag == 2, b.n == 0),
                    # an internally tagged enum has no tuple variant but newtypes
                    z3.Implies(z3.And(self.tag_kind == 1, x.style_tag == 1), b.n == 1)]
        for y in cached_facts(("variant", v), mk):
            self.ctx.fact_path(y)
        return x

    def vbase(self, v):
        key = v.get_id() if isinstance(v, z3.ExprRef) else v
        r = self._vb.get(key)
        if r is None:
            r = (Base("vfields", (v,), lambda i: None), v)
            self._vb[key] = r
        return r[0]

    def vfield(self, v, i, style):
        f = Field(self, None, (v, i), style)
        self.facts(f)
        return f

    def mk_field(self, i):
        return self.field(i)

    def mk_variant(self, i):
        return self.variant(i)

    # -- sequences
    def seq(self, fn):
        return SeqV([Comp(self.base, lambda e: [One(fn(e.idx))], True)])

    def vseq(self, v, fn):
        return SeqV([Comp(self.vbase(v), lambda e: [One(fn(e.idx))], True)])

    # -- used by the specification
    tag_name = property(lambda s: hole("tag"))
    content_name = property(lambda s: hole("content"))

    def field_seq(self):
        return self.seq(self.field)

    def field_at(self, i):
        return self.field(z3.IntVal(i))

    def variant_seq(self):
        return self.seq(self.variant)

    # -- syn / serde / darling views
    def ns_path(self):
        segs = SeqV([Comp(Base("nssegs", (), lambda i: None),
                          lambda e: [One(StructV("syn::PathSegment", {
                              "ident": Ident(hole("nsseg", [e.idx])), "arguments": Obj("pathargs")}))], True),
                     One(StructV("syn::PathSegment", {"ident": Ident(hole("nsident")), "arguments": Obj("pathargs")}))],
                    "vec")
        return StructV("syn::Path", {"leading_colon": Obj("nslc"), "segments": segs})

    def derive_input(self):
        return Obj("DeriveInput", (), {"decl": self, "fields": {
            "attrs": lambda: self.attrs(), "ident": self.ident, "vis": Obj("vis"), "generics": Obj("generics")}})

    def attrs(self):
        return SeqV([Comp(Base("attrs", (), lambda i: None), lambda e: [One(Obj("attr", (e.idx,)))], True)])

    def darling_input(self, defn, it):
        """The value `from_derive_input` returns: by the field names of the receiving struct."""
        vals = {}
        for f in defn.node.fields:
            nm = f.name
            if nm == "ident":
                vals[nm] = self.ident
            elif nm == "data":
                vals[nm] = self.darling_data(f.ty, defn)
            elif nm == "vis":
                vals[nm] = Obj("vis")
            elif nm == "generics":
                vals[nm] = Obj("generics")
            elif nm == "attrs":
                vals[nm] = self.attrs()
            elif nm == "namespace":
                vals[nm] = self.ns_path()
            else:
                h = getattr(self, "dfield_" + nm, None)
                if h is None:
                    raise Unsupported("darling field %s" % nm)
                vals[nm] = h()
        return StructV(defn.name, vals, defn)

    def dfield_name(self):
        return SymEnum("Option", z3.If(zf("has_nsname", [], IntS) == 1, 1, 0), [("None", lambda: ()), ("Some", lambda: (hole("nsname"),))])

    def darling_data(self, ty, defn):
        """darling::ast::Data<V, F>"""
        args = ty.segs[-1][1]
        fc = FCtx(defn.module)
        vt = self.it.type_val(args[0], fc)
        ft = self.it.type_val(args[1], fc)
        if self.kind == "enum":
            return EnumV("Data", "Enum", (self.seq(lambda v: self.darling_variant(v, vt)),))
        style = EnumV("Style", {"struct": "Struct", "tuple": "Tuple", "ns": "Unit", "backend": "Tuple", "backend_named": "Struct"}[self.kind], ())
        return EnumV("Data", "Struct", (StructV("Fields", {
            "style": style, "fields": self.seq(lambda i: self.darling_field(self.field(i), ft)),
            "span": Obj("span")}),))

    def darling_variant(self, v, t):
        x = self.variant(v)
        if t[0] != "adt" or not isinstance(t[1], Defn):
            raise Unsupported("darling variant type")
        vals = {}
        for f in t[1].node.fields:
            if f.name == "ident":
                vals["ident"] = x.ident
            elif f.name == "fields":
                ft = self.it.type_val(f.ty.segs[-1][1][0], FCtx(t[1].module))
                style = SymEnum("Style", x.style_tag, [(s, lambda: ()) for s in STYLES])
                vals["fields"] = StructV("Fields", {
                    "style": style,
                    "fields": self.vseq(v, lambda i: self.darling_field(self.vf(v, i), ft)), "span": Obj("span")})
            elif f.name == "attrs":
                vals["attrs"] = Obj("attrs")
            else:
                raise Unsupported("darling variant field %s" % f.name)
        return StructV(t[1].name, vals, t[1])

    def vf(self, v, i):
        """Field i of variant v: the style of the variant is known where it matters."""
        x = Variant(self, v)
        f = Field(self, None, (v, i), None)
        for y in cached_facts(("vf", v, i), lambda: [
                z3.And(f.default_tag >= 0, f.default_tag <= 2),
                z3.Implies(x.style_tag != 0, z3.Not(f.flatten)),
                z3.Not(f.transparent), x.style_tag != 2]):
            self.ctx.fact_path(y)
        return f

    def darling_field(self, f, t):
        if t[0] == "tuple" and not t[1]:
            return UNIT
        if t[0] != "adt" or not isinstance(t[1], Defn):
            raise Unsupported("darling field type")
        vals = {}
        for d in t[1].node.fields:
            if d.name == "ident":
                vals["ident"] = self.field_ident(f)
            elif d.name == "ty":
                vals["ty"] = TypeV(f.ty)
            elif d.name == "attrs":
                vals["attrs"] = Obj("attrs")
            elif d.name == "vis":
                vals["vis"] = Obj("vis")
            else:
                raise Unsupported("darling field %s" % d.name)
        return StructV(t[1].name, vals, t[1])

    def field_ident(self, f):
        if f.style == "Struct":
            return some(f.ident)
        if f.style == "Tuple":
            return NONE
        st = Variant(self, f.args[0]).style_tag
        return SymEnum("Option", z3.If(st == 0, 1, 0), [("None", lambda: ()), ("Some", lambda: (f.ident,))])

    # serde
    def container(self):
        return StructV("ast::Container", {
            "ident": self.ident, "attrs": Obj("serde::Container", (), {"decl": self}),
            "data": self.serde_data(), "generics": Obj("generics"), "original": self.derive_input()})

    def serde_data(self):
        if self.kind == "enum":
            return EnumV("Data", "Enum", (self.seq(self.serde_variant),))
        if self.kind == "struct":
            st = EnumV("Style", "Struct", ())
        elif self.kind == "tuple":
            st = SymEnum("Style", z3.If(self.base.n == 1, 1, 0), [("Tuple", lambda: ()), ("Newtype", lambda: ())])
        else:
            st = EnumV("Style", "Unit", ())
        return EnumV("Data", "Struct", (st, self.seq(lambda i: self.serde_field(self.field(i)))))

    def serde_field(self, f):
        member = EnumV("Member", "Named", (f.ident,)) if f.style == "Struct" else Obj("member", f.args)
        return StructV("ast::Field", {"member": member, "attrs": Obj("serde::Field", f.args, {"f": f}),
                                      "ty": TypeV(f.ty), "original": Obj("synfield", f.args)})

    def serde_variant(self, v):
        x = self.variant(v)
        b = self.vbase(v)
        st = z3.If(x.style_tag == 0, 0, z3.If(x.style_tag == 2, 3, z3.If(b.n == 1, 2, 1)))
        return StructV("ast::Variant", {
            "ident": x.ident, "attrs": Obj("serde::Variant", (v,), {"v": x}),
            "style": SymEnum("Style", st, [(s, lambda: ()) for s in SERDE_STYLES]),
            "fields": self.vseq(v, lambda i: self.serde_field(self.vf(v, i))),
            "original": Obj("synvariant", (v,))})


def hole_t(name):
    return z3.Int("str:" + name)


def default_enum(tag, what, args):
    return SymEnum("Default", tag, [("None", lambda: ()), ("Default", lambda: ()),
                                    ("Path", lambda: (Obj("path:" + what, args),))])


def opt_if(cond, thunk):
    return SymEnum("Option", z3.If(cond, 1, 0), [("None", lambda: ()), ("Some", lambda: (thunk(),))])


def install(it, decl=None):
    """Register the models with an interpreter."""
    it.decl = decl

    def meth(it, v, name, getargs, n, place):
        if isinstance(v, Obj):
            d = it.decl
            k = v.kind
            if k == "serde::Field":
                f = v.meta["f"]
                if name == "name":
                    return Obj("serde::Name", v.args, {"de": f.name, "ser": hole(f.p + "fname_ser", f.args)})
                if name == "skip_deserializing":
                    return f.skip
                if name == "flatten":
                    return f.flatten
                if name == "transparent":
                    return f.transparent
                if name == "default":
                    return default_enum(f.default_tag, f.p + "fdefault", f.args)
                if name in ("skip_serializing",):
                    return zf(f.p + "f_" + name, f.args)
                if name in ("skip_serializing_if", "serialize_with", "deserialize_with", "getter"):
                    return opt_if(zf(f.p + "f_" + name, f.args), lambda: Obj(name, f.args))
                if name == "mark_transparent":
                    return NotImplemented
            if k == "serde::Variant":
                x = v.meta["v"]
                if name == "name":
                    return Obj("serde::Name", v.args, {"de": x.name, "ser": hole("vname_ser", v.args)})
                if name == "skip_deserializing":
                    return x.skip
                if name in ("skip_serializing", "other"):
                    return zf("v_" + name, v.args)
                if name in ("serialize_with", "deserialize_with"):
                    return opt_if(zf("v_" + name, v.args), lambda: Obj(name, v.args))
            if k == "serde::Container":
                if name == "name":
                    return Obj("serde::Name", (), {"de": d.name, "ser": hole("cname_ser")})
                if name == "transparent":
                    return d.transparent
                if name == "default":
                    return default_enum(d.default_tag, "cdefault", ())
                if name == "tag":
                    return SymEnum("TagType", d.tag_kind, [
                        ("External", lambda: ()), ("Internal", lambda: {"tag": hole("tag")}),
                        ("Adjacent", lambda: {"tag": hole("tag"), "content": hole("content")}), ("None", lambda: ())])
                if name == "type_from":
                    return opt_if(d.has_from, lambda: TypeV(("obj", Obj("fromty"))))
                if name == "type_try_from":
                    return opt_if(d.has_try, lambda: TypeV(("obj", Obj("tryfromty"))))
                if name == "type_into":
                    return opt_if(zf("c_into", []), lambda: TypeV(("obj", Obj("intoty"))))
                if name in ("deny_unknown_fields", "has_flatten"):
                    return zf("c_" + name, [])
            if k == "serde::Name":
                if name == "deserialize_name":
                    return v.meta["de"]
                if name == "serialize_name":
                    return v.meta["ser"]
            if k == "generics" and name == "split_for_impl":
                return TupleV([TokV([]), TokV([]), TokV([])])
            if k == "vis" and name == "$tokens":
                return [Tok("id", "pub")]
            if k == "Ctxt" and name == "check":
                return ok(UNIT)
            if name == "span":
                return Obj("span")
        if isinstance(v, SymEnum) and v.enum == "Default" and name == "is_none":
            return v.tag == 0
        if isinstance(v, EnumV) and v.enum == "Default" and name == "is_none":
            return v.variant == "None"
        if isinstance(v, (EnumV, SymEnum)) and v.enum == "Data":
            x = it.m.force_enum(v)
            if name == "take_enum":
                return some(x.payload[0]) if x.variant == "Enum" else NONE
            if name == "take_struct":
                return some(x.payload[-1]) if x.variant == "Struct" else NONE
            if name in ("is_enum", "is_struct"):
                return x.variant.lower() == name[3:]
            if name in ("clone", "as_ref"):
                return x
        if isinstance(v, StructV) and v.name == "Fields":
            st = v.fields["style"]
            if name == "is_newtype":
                if not it.truth(it.m._is(st, "Tuple")):
                    return False
                c = it.ctx.count(v.fields["fields"])
                return c == 1
            if name in ("is_tuple", "is_struct", "is_unit"):
                return it.m._is(st, {"is_tuple": "Tuple", "is_struct": "Struct", "is_unit": "Unit"}[name])
        if isinstance(v, StructV) and v.name == "syn::Path":
            if name == "$tokens" and "$ty" not in v.fields:
                lc = v.fields.get("leading_colon")
                segs = it.ctx.norm(v.fields["segments"])
                if isinstance(lc, EnumV) and lc.variant == "None" and len(segs) == 1 and isinstance(segs[0], One):
                    return it.q.value_tokens(segs[0].v.fields["ident"], None)
                return [Tok("hole", path_type(v))]
            if name == "span":
                return Obj("span")
        if isinstance(v, StructV) and "$ty" in v.fields:
            if name == "$tokens":
                return [Tok("hole", v.fields["$ty"])]
            if name == "span":
                return Obj("span")
            if name == "is_ident" and "segments" in v.fields:
                segs = v.fields["segments"]
                if not it.truth(it.ctx.count(segs) == 1):
                    return False
                return it.m.eq(segs.parts[-1].v.fields["ident"], getargs()[0])
            if name == "get_ident" and "segments" in v.fields:
                segs = v.fields["segments"]
                if not it.truth(it.ctx.count(segs) == 1):
                    return NONE
                return some(segs.parts[-1].v.fields["ident"])
        if isinstance(v, (EnumV, SymEnum)) and v.enum in ("Style", "TagType", "Default") and name in ("clone",):
            return v
        return NotImplemented
    it.extra_methods.append(meth)

    def path_type(v):
        last = it.ctx.norm(v.fields["segments"])[-1]
        if not isinstance(last, One):
            raise Unsupported("path without a last segment")
        idt = last.v.fields["ident"]
        if repr(idt) == repr(Ident(hole("nsident"))):
            return TypeV(("obj", Obj("nspath")))
        return TypeV(("regpath", idt))

    ext = it.extra_ext

    def syn_parse(it, args, want, fc):
        return ok(it.decl.derive_input())
    ext["syn::parse"] = syn_parse
    ext["syn::parse2"] = syn_parse

    def from_ast(it, args, want, fc):
        return some(it.decl.container())
    ext["Container::from_ast"] = from_ast
    ext["Ctxt::new"] = lambda it, a, w, fc: Obj("Ctxt")
    ext["crate_name"] = lambda it, a, w, fc: ok(EnumV("FoundCrate", "Name", (S("zod"),)))
    ext["Span::call_site"] = lambda it, a, w, fc: Obj("span")
    ext["Span::mixed_site"] = lambda it, a, w, fc: Obj("span")
    ext["Ident::new"] = lambda it, a, w, fc: Ident(it.m.to_s(a[0]))
    ext["TokenStream::new"] = lambda it, a, w, fc: TokV([])
    ext["TokenStream::from"] = lambda it, a, w, fc: it.deref(a[0])

    def index_from(it, args, want, fc):
        i = it.deref(args[0])
        return Obj("syn::Index", (i,), {"tokens": lambda: [Tok("int", i) if isinstance(i, int) else Tok("hole", Ident(S(Hole("index", (i,)))))]})
    ext["syn::Index::from"] = index_from
    ext["Index::from"] = index_from

    def parse_str(it, args, want, fc):
        s = it.m.to_s(args[0])
        c = s.const()
        if c is not None:
            raise Unsupported("syn::parse_str of a constant")
        from std_models import s_term
        t = s_term(s)
        if t is None:
            raise Unsupported("syn::parse_str")
        is_id = z3.Function("is_rust_ident", IntS, BoolS)(t)
        return SymEnum("Result", z3.If(is_id, 0, 1), [("Ok", lambda: (Ident(s),)), ("Err", lambda: (Obj("synerr"),))])
    ext["syn::parse_str"] = parse_str
    ext["parse_str"] = parse_str

    # darling's generated constructors
    def assoc(t, trait, name, fc, n):
        if name == "from_derive_input" and t[0] == "adt" and isinstance(t[1], Defn):
            def run(*a):
                return ok(it.decl.darling_input(t[1], it))
            return PyFn(run, name)
        raise Unsupported("associated item %r::%s" % (t, name))
    it.m.ext_assoc = assoc

    def zod_trait(t, name, args):
        if args == "?":
            return name in ("schema", "inline_schema", "type_def", "inline", "docs")
        if name in ("schema", "inline_schema"):
            return S(Hole(name, targs(t)))
        if name == "docs":
            return opt_if(zf("has_docs:" + str(targs(t)), []), lambda: S(Hole("docs", targs(t))))
        if name == "inline":
            return Obj("InlinedType", targs(t), {"display": lambda: S(Hole("inline", targs(t)))})
        if name == "type_def":
            return Obj("TsTypeDef", targs(t), {"display": lambda: S(Hole("type_def", targs(t)))})
    it.trait_models["ZodType"] = zod_trait

    def ns_trait(t, name, args):
        if args == "?":
            return name in ("NAME", "members")
        if name == "NAME":
            return S(Hole("ns_name", targs(t)))
        raise Unsupported("Namespace::" + name)
    it.trait_models["Namespace"] = ns_trait


def targs(t):
    """Hole arguments identifying a type."""
    if t[0] == "obj":
        return (t[1].kind,) + tuple(t[1].args)
    return (repr(t),)


def tyhole(fn, t):
    """Text of a reference to / schema of an opaque type."""
    return S(Hole(fn, targs(t)))


def docs_contract(it):
    """Contract of RustDocs::from_attrs (discharged by the check of the documentation property)."""
    done = False
    for d in it.prog.find_fns("RustDocs::from_attrs"):
        def c(it, d, args, self_ty, tyargs):
            return ok(Obj("RustDocs", (), {"tokens": lambda: [Tok("hole", S(Hole("docs_of_attrs")))]}))
        it.contracts[d.qual()] = c
        done = True
    return done


def open_consts(toks):
    """`const _: () = { items };` holds its items apart from the others; they are taken as they are."""
    out = []
    i = 0
    while i < len(toks):
        w = toks[i:i + 7]
        if [t.k for t in w] == ["id", "id", "p", "g", "p", "g", "p"] and w[0].v == "const" and w[1].v == "_" \
                and w[3].d == "(" and not w[3].v and w[5].d == "{":
            out += open_consts(list(w[5].v))
            i += 7
            continue
        out.append(toks[i])
        i += 1
    return out


def user_module(it, toks):
    """The module the emitted tokens are compiled in."""
    m = Module(it.prog, "user", [], None)
    items = P(open_consts(list(toks))).file()
    save = it.prog.impls
    it.prog.impls = []
    try:
        it.prog.add_items(m, items, "<emitted>", True)
        impls = it.prog.impls
    finally:
        it.prog.impls = save
    return m, impls
