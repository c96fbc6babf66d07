"""Declarations of the bounded battery: corner cases written by hand and pseudo-random combinations of
every attribute the properties mention."""
import random
from concrete import *

PLAIN = ["u8", "String", "bool", "Option<u16>", "Vec<String>", "Other", "Box<Renamed>", "(u8, Other)", "i64",
         "Vec<Option<Other>>", "std::collections::HashMap<String, u8>", "[u8; 3]", "Wrapped"]
DEF = ["u8", "String", "bool", "Option<u16>", "Vec<String>", "i64", "Other", "(u8, String)"]      # with Default
FLAT = ["Inner1", "Inner2", "Inner3"]
NAMES = ["a-b", "with space", "1x", "", "quo\"te", "back\\slash", "new\nline", "ümlaut", "type", "$ok", "_u",
         "a.b", "x'y", "tab\tx", "\u2028", "*/", "{}", "{0}", "{{", "`", "${x}", "constructor", "0", "9", "UPPER", "\u0001", "__x", "_", "$", "__proto__",
         "a_really_rather_long_name_of_a_field_or_variant_or_type_which_goes_on_for_a_while_0123456789"]
FIELDS = ["alpha", "beta", "gamma_ray", "r#type", "delta", "eps_i_lon", "r#fn", "zeta"]
VARIANTS = ["First", "Second", "ThirdOne", "Fourth", "Fifth"]


def camel(s):
    s = s[2:] if s.startswith("r#") else s
    out = ""
    up = False
    for c in s:
        if c == "_":
            up = True
        else:
            out += c.upper() if up else c
            up = False
    return out


def rfield(r, i, named, allow_flat=True, wire=None, names=None):
    ident = FIELDS[i] if named else None
    kind = r.random()
    f = CField(ident)
    if named and r.random() < 0.25:
        f.rename = r.choice(NAMES) if r.random() < 0.6 else "renamed%d" % i
        if r.random() < 0.2:
            f.ser_rename = "ser%d" % i
    elif named and r.random() < 0.08:
        f.ser_rename = "ser%d" % i
    if named and wire and f.rename is None:
        f.wire = camel(ident)
    if kind < 0.15:
        f.skip_s = r.choice(["skip", "skip_deserializing"])
        f.ty_s = r.choice(DEF)
    elif kind < 0.22:
        f.skip_s = "skip_serializing"
        f.ty_s = r.choice(PLAIN)
    elif kind < 0.45:
        f.default_s = r.choice(["default", "path"])
        f.ty_s = r.choice(DEF)
        if named and allow_flat and r.random() < 0.2:
            f.flatten = True
            f.ty_s = r.choice(FLAT)
            f.rename = f.ser_rename = None
    elif named and allow_flat and kind < 0.6:
        f.flatten = True
        f.rename = f.ser_rename = None
        f.ty_s = r.choice(FLAT)
    else:
        f.ty_s = r.choice(PLAIN)
        if named and r.random() < 0.15:
            f.extra = ['skip_serializing_if = "never"']
    return f


def dedupe(fields):
    seen = set()
    for i, f in enumerate(fields):
        if f.ident_s is None:
            continue
        n = f.name.const()
        while n in seen:
            f.rename = (f.rename or "x") + str(i)
            n = f.name.const()
        seen.add(n)
    return fields


def fix_tuple(fields):
    """serde wants defaults at the end of a tuple; zod does too."""
    seen = False
    for f in fields:
        if f.skip:
            continue
        if f.has_default:
            seen = True
        elif seen:
            f.default_s = "default"
            f.ty_s = "u8"
    return fields


def rstruct(r, k):
    kind = "struct" if r.random() < 0.6 else "tuple"
    named = kind == "struct"
    wire = named and r.random() < 0.25
    n = r.choice([0, 1, 1, 2, 3, 4, 6]) if named else r.choice([1, 1, 2, 2, 3, 4, 5])
    fs = dedupe([rfield(r, i, named, wire=wire) for i in range(n)])
    if not named:
        fs = fix_tuple(fs)
    d = CDecl(kind, "D%d" % k, fs)
    if wire:
        d.extra = ('rename_all = "camelCase"',)
    if r.random() < 0.2:
        d.rename = "Exported%d" % k
    if named and r.random() < 0.15:
        d.default_s = r.choice(["default", "path"])
    if n and r.random() < 0.2 and d.default_s is None:
        # exactly one field which is read and has no default
        c = r.randrange(n)
        for i, f in enumerate(fs):
            f.default_s = None
            f.flatten = False
            if i == c:
                f.skip_s = None
                f.ty_s = r.choice(PLAIN)
            else:
                f.skip_s = "skip"
                f.ty_s = "u8"
        d = CDecl(kind, d.ident_s, fs, rename=d.rename, transparent=True)
        if n == 1 and r.random() < 0.3 and named:
            fs[0].flatten = True
            fs[0].ty_s = r.choice(FLAT)
    elif r.random() < 0.1:
        if r.random() < 0.5:
            d.from_s = r.choice(PLAIN)
        else:
            d.try_s = r.choice(PLAIN)
    return d


def rvariant(r, i, tag, wire):
    ident = VARIANTS[i]
    style = r.choice(["Unit", "Tuple", "Struct", "Struct", "Tuple"])
    v = CVariant(ident, style)
    if r.random() < 0.25:
        v.rename = r.choice(NAMES) if r.random() < 0.5 else "Ren%d" % i
    elif wire:
        v.wire = ident[0].lower() + ident[1:]
    if style == "Struct":
        n = r.choice([0, 1, 2, 3])
        v.fields = dedupe([rfield(r, j, True) for j in range(n)])
    elif style == "Tuple":
        n = 1 if tag == "internal" else r.choice([1, 1, 2, 3])
        v.fields = fix_tuple([rfield(r, j, False) for j in range(n)])
        if n > 1:
            for f in v.fields:
                if f.skip is False:
                    pass
        if tag == "internal":
            for f in v.fields:
                f.default_s = None
                if f.skip_s not in ("skip", "skip_deserializing"):
                    f.ty_s = r.choice(FLAT)
        if tag == "internal" and n == 0:
            v.style = "Unit"
    if r.random() < 0.12:
        v.skip_s = r.choice(["skip", "skip_deserializing"])
    return v


def renum(r, k):
    tag = r.choice(["external", "internal", "adjacent", "none"])
    n = r.choice([1, 2, 2, 3, 4])
    wire = r.random() < 0.2
    vs = [rvariant(r, i, tag, wire) for i in range(n)]
    seen = set()
    for i, v in enumerate(vs):
        if v.name.const() in seen:
            v.rename = "Uniq%d" % i
        seen.add(v.name.const())
    if all(v.skip for v in vs):
        vs[0].skip_s = None
    d = CDecl("enum", "E%d" % k, variants=vs)
    if tag in ("internal", "adjacent"):
        d.tag_s = r.choice(["kind", "type", "the-tag", "1t", "a\"b"])
    if tag == "adjacent":
        d.content_s = r.choice(["content", "c", "the content", "9c"])
    if tag == "none":
        d.untagged = True
    if tag == "internal":
        for v in vs:
            for f in v.fields:
                if f.ident_s and f.name.const() == d.tag_s:
                    f.rename = "notag"
    if wire:
        d.extra = ('rename_all = "camelCase"',)
    if r.random() < 0.2:
        d.rename = "ExportedE%d" % k
    if r.random() < 0.08:
        if r.random() < 0.5:
            d.from_s = r.choice(PLAIN)
        else:
            d.try_s = r.choice(PLAIN)
    return d


def fixed():
    """Corner cases."""
    out = []
    F, V = CField, CVariant

    def add(kind, **kw):
        out.append((kind, kw))
    add("struct")
    add("struct", fields=[F("a", "u8")])
    add("struct", fields=[F("r#type", "u8"), F("r#fn", "String")])
    for i, n in enumerate(NAMES):
        add("struct", fields=[F("a", "u8", rename=n), F("b", "String")])
        add("enum", variants=[V("A", "Unit", rename=n), V("B", "Tuple", [F(None, "u8")], rename=n + "x"),
                              V("C", "Struct", [F("f", "u8", rename=n)])], **(
            {} if i % 4 == 0 else {"tag": n or "t"} if i % 4 == 1 else {"tag": "t", "content": n or "c"} if i % 4 == 2
            else {"untagged": True}))
        if i % 4 == 1:
            out[-1][1]["variants"][1].fields[0].ty_s = "Inner1"
            out[-1][1]["variants"][2].fields[0].rename = n + "f"
    odd = [chr(c) for c in list(range(0x30)) + list(range(0x3a, 0x41)) + list(range(0x5b, 0x61)) + list(range(0x7b, 0xa1))
           + [0xad, 0xb2, 0xd7, 0x37e, 0x660, 0x2028, 0x2029, 0xfeff, 0xfffd, 0x1d7d8, 0x1f600]]
    add("struct", fields=[F("f%d" % i, "u8", rename="x%s" % c) for i, c in enumerate(odd)])
    add("enum", variants=[V("V%d" % i, rename=c) for i, c in enumerate(odd)])
    add("enum", variants=[V("V%d" % i, "Struct", [F("f", "u8")], rename=c + "y") for i, c in enumerate(odd)])
    add("struct", fields=[F("a", "Inner1", flatten=True)])
    add("struct", fields=[F("a", "Inner1", flatten=True), F("b", "Inner2", flatten=True), F("c", "u8")])
    add("struct", fields=[F("c", "u8"), F("a", "Inner1", flatten=True, default="default"), F("d", "String", default="path")])
    add("struct", fields=[F("a", "Inner1", flatten=True)], transparent=True)
    add("struct", fields=[F("s", "u8", skip="skip"), F("a", "String")], transparent=True)
    add("tuple", fields=[F(None, "u8", skip="skip"), F(None, "String")], transparent=True)
    add("tuple", fields=[F(None, "u8", skip="skip"), F(None, "String")])
    add("tuple", fields=[F(None, "u8"), F(None, "String", skip="skip")])
    add("tuple", fields=[F(None, "u8", skip="skip"), F(None, "String", skip="skip")])
    add("tuple", fields=[F(None, "u8", skip="skip")])
    add("tuple", fields=[F(None, "u8", default="default")])
    add("tuple", fields=[F(None, "u8"), F(None, "String", default="default"), F(None, "bool", default="path")])
    add("tuple", fields=[F(None, "u8"), F(None, "String", default="default"), F(None, "bool", skip="skip"),
                         F(None, "bool", default="path")])
    add("struct", fields=[F("a", "u8"), F("b", "Option<Other>"), F("c", "Inner1", flatten=True)], default="default")
    add("struct", fields=[F("a", "u8"), F("b", "u16", default="default")], default="path")
    add("struct", fields=[F("a", "u8", skip="skip_serializing"), F("b", "u16")])
    # the names serde writes are of no concern
    add("struct", fields=[F("a", "u8", rename="de", ser_rename="ser"), F("b", "u8", ser_rename="a")], extra=('rename(serialize = "WrittenS")',))
    add("tuple", fields=[F(None, "u8"), F(None, "u8")], extra=('rename(serialize = "WrittenT")',))
    add("enum", variants=[V("A", extra=('rename(serialize = "x")',)), V("B")], extra=('rename(serialize = "WrittenE")',))
    for kw in ({}, {"tag": "t"}, {"tag": "t", "content": "c"}, {"untagged": True}):
        add("enum", variants=[V("A", extra=('rename(serialize = "x")',)), V("B", "Tuple", [F(None, "Inner1")], extra=('rename(serialize = "y")',)),
                              V("C", "Struct", [F("f", "u8", rename="de", ser_rename="ser")], extra=('rename(serialize = "z")',))], **kw)
        add("enum", variants=[V("D", "Struct", [F("f", "u8", ser_rename="ser")], extra=('rename(serialize = "z")',))],
            extra=('rename_all(serialize = "UPPERCASE")',), **kw)
    add("struct", fields=[F("a", "u8")], from_ty="Other")
    add("struct", fields=[F("a", "u8")], try_from="String")
    add("tuple", fields=[F(None, "u8")], from_ty="Vec<Renamed>")
    add("enum", variants=[V("A"), V("B", "Tuple", [F(None, "u8")])], from_ty="u8")
    add("enum", variants=[V("A"), V("B", "Tuple", [F(None, "u8")])], try_from="Other", tag="t", content="c")
    for kw in ({}, {"tag": "t"}, {"tag": "t", "content": "c"}, {"untagged": True}):
        internal = kw == {"tag": "t"}
        ty = "Inner1" if internal else "u8"
        add("enum", variants=[V("A")], **kw)
        add("enum", variants=[V("A", "Tuple", [F(None, ty)])], **kw)
        add("enum", variants=[V("A", "Struct", [])], **kw)
        add("enum", variants=[V("A", "Struct", [F("a", "u8"), F("b", "String", default="default")])], **kw)
        add("enum", variants=[V("A", "Tuple", [F(None, "u8", skip="skip")]), V("B")], **kw)
        add("enum", variants=[V("A", "Tuple", [F(None, "u8", skip="skip")])], **kw)
        add("enum", variants=[V("A", skip="skip"), V("B", "Tuple", [F(None, ty)])], **kw)
        add("enum", variants=[V("A", skip="skip"), V("B"), V("C")], **kw)
        add("enum", variants=[V("A"), V("B", "Tuple", [F(None, ty)], skip="skip_deserializing"), V("C", "Struct", [F("x", "u8")])], **kw)
        add("enum", variants=[V("A"), V("B", "Tuple", [F(None, ty)], skip="skip_serializing"), V("C", "Struct", [F("x", "u8")])], **kw)
        add("enum", variants=[V("A", "Struct", [F("a", "Inner1", flatten=True)]),
                              V("B", "Struct", [F("k", "u8"), F("a", "Inner1", flatten=True), F("b", "Inner2", flatten=True),
                                                F("z", "u8")]), V("C", "Struct", [])], **kw)
        add("enum", variants=[V("A", "Struct", [F("a", "u8", skip="skip")]), V("B", "Struct", [F("r#type", "u8"), F("b", "u16", default="path")])], **kw)
        if not internal:
            add("enum", variants=[V("A", "Tuple", [F(None, "u8"), F(None, "Other")]), V("B", "Tuple", [F(None, "u8", skip="skip"), F(None, "String")])], **kw)
            add("enum", variants=[V("A", "Tuple", [F(None, "u8"), F(None, "String", default="default")]), V("B", "Tuple", [F(None, "u8", skip="skip"), F(None, "String", skip="skip")])], **kw)
            add("enum", variants=[V("A", "Tuple", [F(None, "u8", default="default")]), V("B")], **kw)
    decls = []
    for i, (kind, kw) in enumerate(out):
        decls.append(CDecl(kind, "F%d" % i, **kw))
    return decls


def battery(seed, tier):
    r = random.Random(seed * 7919 + 13)
    n = 60 if tier == "quick" else 400
    ds = fixed()
    for i in range(n):
        ds.append(rstruct(r, i))
    for i in range(n):
        ds.append(renum(r, i))
    return ds
