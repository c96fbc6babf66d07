"""The JSON form which the derived serde implementations give a type: read off its definition and its attributes."""
from core import *
from interp import FCtx
from program import Defn
import ts
from ts import Mismatch

RULES = {
    "lowercase": lambda ws: ws.lower(), "UPPERCASE": lambda ws: ws.upper(), "PascalCase": lambda ws: ws,
    "camelCase": lambda ws: ws[:1].lower() + ws[1:],
}


def words(s):
    out = ""
    for i, c in enumerate(s):
        if i and c.isupper():
            out += "_"
        out += c.lower()
    return out


RULES["snake_case"] = words
RULES["SCREAMING_SNAKE_CASE"] = lambda s: words(s).upper()
RULES["kebab-case"] = lambda s: words(s).replace("_", "-")
RULES["SCREAMING-KEBAB-CASE"] = lambda s: words(s).upper().replace("_", "-")


def pascal(s):
    return "".join(w[:1].upper() + w[1:] for w in s.split("_"))


def serde_attrs(attrs):
    """name -> text, path tokens or True, from the #[serde(..)] attributes."""
    out = {}
    for a in attrs:
        if not a or a[0].k != "id" or a[0].v != "serde":
            continue
        if len(a) != 2 or a[1].k != "g":
            raise Unsupported("serde attribute")
        cur = []
        for t in list(a[1].v) + [None]:
            if t is not None and not (t.k == "p" and t.v == ","):
                cur.append(t)
                continue
            if not cur:
                continue
            if cur[0].k != "id":
                raise Unsupported("serde attribute")
            if len(cur) == 1:
                v = True
            elif len(cur) == 3 and cur[1].k == "p" and cur[1].v == "=" and cur[2].k == "str":
                v = cur[2].v
            elif len(cur) == 2 and cur[1].k == "g":
                v = list(cur[1].v)
            else:
                raise Unsupported("serde attribute %s" % cur[0].v)
            if cur[0].v in out:
                raise Unsupported("serde attribute %s twice" % cur[0].v)
            out[cur[0].v] = v
            cur = []
    return out


def side(attrs, name, mode):
    """rename = ".." or rename(serialize = "..", deserialize = "..")"""
    v = attrs.pop(name, None)
    if isinstance(v, list):
        for i, t in enumerate(v):
            if t.k == "id" and t.v == mode and len(v) > i + 2 and v[i + 2].k == "str":
                return v[i + 2].v
        return None
    if v is True:
        raise Unsupported("serde(%s)" % name)
    return v


def rest(attrs, allowed, what):
    for k in attrs:
        if k not in allowed:
            raise Unsupported("serde(%s) on %s" % (k, what))


class Field:
    pass


class Variant:
    pass


class Repr:
    """repr: struct | external | internal | adjacent | untagged"""


def ident_text(it, name, rule, of_variant):
    """Wire name of an identifier; S."""
    import p_nsmacro as NM
    h = NM.HOLE_IDS.get(name)
    if h is not None:
        if rule is not None:
            raise Mismatch("serde renames the names by %s" % rule)
        return it.m.to_s(it.m.method(Ident(h), "unraw", [], None, None))
    name = name[2:] if name.startswith("r#") else name
    if rule is not None:
        if rule not in RULES:
            raise Unsupported("rename_all = %r" % rule)
        if rule == "lowercase" and not of_variant:
            return S(name)
        if of_variant:
            name = RULES[rule](name)
        elif rule not in ("snake_case",):
            if rule in ("PascalCase", "camelCase"):
                name = pascal(name)
                if rule == "camelCase":
                    name = name[:1].lower() + name[1:]
            elif rule in ("UPPERCASE", "SCREAMING_SNAKE_CASE"):
                name = name.upper()
            elif rule == "kebab-case":
                name = name.replace("_", "-")
            elif rule == "SCREAMING-KEBAB-CASE":
                name = name.upper().replace("_", "-")
    return S(name)


def fields(it, fs, rule, mode):
    out = []
    for f in fs:
        if f.kind != "field":
            raise Unsupported("repeated fields")
        a = serde_attrs(f.attrs)
        x = Field()
        x.rust, x.ty = f.name, f.ty
        n = side(a, "rename", mode)
        x.flatten = a.pop("flatten", None) is not None
        x.default = a.pop("default", None) is not None
        x.skip = a.pop("skip", None) is not None or a.pop("skip_serializing" if mode == "serialize" else "skip_deserializing",
                                                          None) is not None
        a.pop("skip_deserializing" if mode == "serialize" else "skip_serializing", None)
        x.skip_if = a.pop("skip_serializing_if", None) if mode == "serialize" else None
        x.by = a.pop("serialize_with" if mode == "serialize" else "deserialize_with", None)
        x.with_ = a.pop("with", None)
        x.aliases = a.pop("alias", None) is not None
        a.pop("bound", None)
        a.pop("borrow", None)
        rest(a, ("serialize_with", "deserialize_with", "skip_serializing_if"), "a field")
        x.name = S(n) if n is not None else ident_text(it, f.name, rule, False) if f.name is not None else None
        out.append(x)
    return out


def derives(d, trait):
    for a in d.node.attrs:
        if a and a[0].k == "id" and a[0].v == "derive" and len(a) == 2:
            if any(t.k == "id" and t.v == trait for t in a[1].v):
                return True
    return False


def of(it, d, mode):
    """Representation of the struct or enum d; mode: serialize or deserialize."""
    if not isinstance(d, Defn) or d.kind not in ("struct", "enum"):
        raise Unsupported("JSON form of %r" % (d,))
    if not derives(d, "Serialize" if mode == "serialize" else "Deserialize"):
        raise Unsupported("%s does not derive its JSON form" % d.name)
    a = serde_attrs(d.node.attrs)
    r = Repr()
    r.defn = d
    rule = side(a, "rename_all", mode)
    frule = side(a, "rename_all_fields", mode)
    a.pop("crate", None)
    a.pop("bound", None)
    a.pop("rename", None)
    r.deny = a.pop("deny_unknown_fields", None) is not None
    r.tag, r.content = a.pop("tag", None), a.pop("content", None)
    untagged = a.pop("untagged", None) is not None
    r.default = a.pop("default", None) is not None
    r.transparent = a.pop("transparent", None) is not None
    rest(a, (), d.name)
    if d.kind == "struct":
        r.repr, r.style = "struct", d.node.style
        r.fields = fields(it, d.node.fields, rule, mode)
        return r
    r.repr = "untagged" if untagged else "adjacent" if r.content is not None else "internal" if r.tag is not None else "external"
    r.variants = []
    for v in d.node.variants:
        if v.kind != "variant":
            raise Unsupported("repeated variants")
        va = serde_attrs(v.attrs)
        x = Variant()
        x.rust, x.style = v.name, v.style
        n = side(va, "rename", mode)
        x.name = S(n) if n is not None else ident_text(it, v.name, rule, True)
        x.skip = va.pop("skip", None) is not None or va.pop("skip_%sing" % mode[:-1], None) is not None
        x.aliases = va.pop("alias", None) is not None
        own = side(va, "rename_all", mode)
        by = va.pop("serialize_with" if mode == "serialize" else "deserialize_with", None)
        rest(va, ("skip_serializing", "skip_deserializing", "serialize_with", "deserialize_with"), "a variant")
        x.fields = fields(it, v.fields, own or frule, mode)
        if by is not None:
            if len(x.fields) != 1 or x.style != "tuple":
                raise Unsupported("serialize_with on a variant")
            x.fields[0].by = by
        r.variants.append(x)
    return r


# ------------------------------------------------------------------ values
class Json:
    """kind: map [(key S, Json)] | list [Json] | str S | num v | null | of value"""

    def __init__(self, kind, v=None):
        self.kind, self.v = kind, v

    def __repr__(self):
        return "%s %r" % (self.kind, self.v)


def to_json(it, v):
    v = it.deref(v)
    if isinstance(v, SymEnum):
        v = it.m.force_enum(v)
    if isinstance(v, Obj):
        return Json("of", v)
    if isinstance(v, EnumV) and v.enum == "Option":
        return Json("null") if v.variant == "None" else to_json(it, v.payload[0])
    if isinstance(v, (S, str)):
        return Json("str", it.m.to_s(v))
    if isinstance(v, EnumV):
        r = of(it, v.defn, "serialize")
        w = [x for x in r.variants if x.rust == v.variant]
        if len(w) != 1 or r.repr != "external" or w[0].skip:
            raise Unsupported("JSON form of %s::%s" % (v.enum, v.variant))
        w = w[0]
        if w.style == "unit":
            return Json("str", w.name)
        if w.style == "tuple":
            if len(w.fields) != 1:
                return Json("map", [(w.name, Json("list", [field(it, v.defn, f, x) for f, x in zip(w.fields, v.payload)]))])
            return Json("map", [(w.name, field(it, v.defn, w.fields[0], v.payload[0]))])
        return Json("map", [(w.name, obj(it, v.defn, w.fields, v.payload))])
    if isinstance(v, StructV):
        r = of(it, v.defn, "serialize")
        if r.style == "named" and not r.transparent:
            return obj(it, v.defn, r.fields, v.fields)
        raise Unsupported("JSON form of %s" % v.name)
    return Json("num", v)


def obj(it, d, fs, vals):
    out = []
    for f in fs:
        if f.skip:
            continue
        x = vals[f.rust]
        if f.skip_if is not None:
            o = it.m.force_enum(it.deref(x)) if f.skip_if.split("::")[-2:] == ["Option", "is_none"] else None
            if o is None:
                raise Unsupported("skip_serializing_if")
            if o.variant == "None":
                continue
        if f.flatten:
            raise Unsupported("a flattened field")
        out.append((f.name, field(it, d, f, x)))
    return Json("map", out)


def field(it, d, f, x):
    if f.with_ is not None:
        raise Unsupported("serde(with)")
    if f.by is None:
        return to_json(it, x)
    from rparse import P
    from rlex import lex
    fc = FCtx(d.module)
    r = it.resolve(fc, [s for s in f.by.split("::")])
    if not isinstance(r, list) or len(r) != 1 or r[0].kind != "fn":
        raise Unsupported("serialize_with = %r" % f.by)
    out = it.m.force_enum(it.deref(it.call_defn(r[0], [x, Obj("serializer")])))
    if out.variant != "Ok":
        raise Mismatch("a value is not written")
    j = it.deref(out.payload[0])
    if isinstance(j, Obj) and j.kind == "written":
        return j.args[0]
    raise Unsupported("serialize_with = %r" % f.by)


def serializer(it, v, name, getargs, n, place):
    """The methods of a Serializer."""
    if not (isinstance(v, Obj) and v.kind == "serializer"):
        return NotImplemented
    if name in ("collect_str", "serialize_str"):
        x = it.deref(getargs()[0])
        if isinstance(x, Obj):
            r = it.m.method(x, "to_string", [], None, None)
        elif isinstance(x, (S, str)):
            r = x
        else:
            r = it.m.display(x) if hasattr(it.m, "display") else None
            if r is None:
                raise Unsupported("collect_str")
        return EnumV("Result", "Ok", (Obj("written", (Json("str", it.m.to_s(r)),)),))
    if name in ("serialize_unit", "serialize_none"):
        return EnumV("Result", "Ok", (Obj("written", (Json("null"),)),))
    raise Unsupported("Serializer::" + name)


# ------------------------------------------------------------------ comparison
def same(it, T, a, b, where=""):
    """a is the form b: a dict (key order does not matter), a list, None, ("num", z3) or ("of", predicate)."""
    if isinstance(b, dict):
        if a.kind != "map":
            raise Mismatch("%s: %r instead of an object" % (where, a))
        ks = []
        for k, _ in a.v:
            t = k.const() if isinstance(k, S) else k
            if t is None:
                raise Unsupported("key %r" % (k,))
            ks.append(t)
        if sorted(ks) != sorted(b):
            raise Mismatch("%s has the keys %s instead of %s" % (where or "the message", sorted(ks), sorted(b)))
        for (k, x), t in zip(a.v, ks):
            same(it, T, x, b[t], where + "." + t)
        return
    if b is None:
        if a.kind != "null":
            raise Mismatch("%s: %r instead of null" % (where, a))
        return
    if b[0] == "num":
        if a.kind != "num":
            raise Mismatch("%s: %r instead of a number" % (where, a))
        x = it.deref(a.v)
        if not it.ctx.must(x == b[1]):
            raise Mismatch("%s: another number: %r" % (where, x))
        return
    if b[0] == "text":
        if a.kind != "str":
            raise Mismatch("%s: %r instead of a text" % (where, a))
        if b[1] is not None:
            T.strict(a.v, b[1])
        return
    if b[0] == "of":
        if a.kind != "of" or not b[1](a.v):
            raise Mismatch("%s: %r" % (where, a))
        return
    raise Unsupported("form %r" % (b,))
