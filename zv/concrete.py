"""Concrete declarations: the same facts as decl.Decl, as plain values; rendered to Rust and to the
text the specification demands."""
import json
import random
from core import *
import spec as spec_mod
from ts import TS, Mismatch


class CField:
    def __init__(self, ident=None, ty="u8", rename=None, ser_rename=None, skip=None, default=None, flatten=False,
                 extra=(), wire=None):
        self.ident_s = ident            # None for tuple fields
        self.ty_s = ty
        self.rename = rename
        self.ser_rename = ser_rename
        self.skip_s = skip              # None | 'skip' | 'skip_deserializing' | 'skip_serializing'
        self.default_s = default        # None | 'default' | 'path'
        self.flatten = flatten
        self.transparent = False
        self.extra = tuple(extra)
        self.wire = wire                # name after rename_all

    skip = property(lambda s: s.skip_s in ("skip", "skip_deserializing"))
    default_tag = property(lambda s: {None: 0, "default": 1, "path": 2}[s.default_s] or (1 if s.skip else 0))
    has_default = property(lambda s: s.default_tag != 0)
    ty = property(lambda s: ("obj", Obj("rust:" + s.ty_s)))

    @property
    def name(self):
        if self.rename is not None:
            return S(self.rename)
        if self.wire is not None:
            return S(self.wire)
        x = self.ident_s or ""
        return S(x[2:] if x.startswith("r#") else x)

    def rust(self):
        a = []
        if self.rename is not None:
            if self.ser_rename is not None:
                a.append("rename(serialize = %s, deserialize = %s)" % (rs(self.ser_rename), rs(self.rename)))
            else:
                a.append("rename = %s" % rs(self.rename))
        elif self.ser_rename is not None:
            a.append("rename(serialize = %s)" % rs(self.ser_rename))
        if self.skip_s:
            a.append(self.skip_s)
        if self.default_s == "default":
            a.append("default")
        elif self.default_s == "path":
            a.append('default = "dflt"')
        if self.flatten:
            a.append("flatten")
        a.extend(self.extra)
        at = "#[serde(%s)] " % ", ".join(a) if a else ""
        return at + ("%s: %s" % (self.ident_s, self.ty_s) if self.ident_s else self.ty_s)


class CVariant:
    def __init__(self, ident, style="Unit", fields=(), rename=None, skip=None, wire=None, extra=()):
        self.ident_s = ident
        self.style = style
        self.fields = list(fields)
        self.rename = rename
        self.skip_s = skip
        self.wire = wire
        self.extra = tuple(extra)

    skip = property(lambda s: s.skip_s in ("skip", "skip_deserializing"))
    style_tag = property(lambda s: ["Struct", "Tuple", "Unit"].index(s.style))
    count = property(lambda s: len(s.fields))

    @property
    def name(self):
        if self.rename is not None:
            return S(self.rename)
        if self.wire is not None:
            return S(self.wire)
        x = self.ident_s
        return S(x[2:] if x.startswith("r#") else x)

    def field_seq(self):
        return seq_of(self.fields)

    def field_at(self, i):
        return self.fields[i]

    def rust(self):
        a = []
        if self.rename is not None:
            a.append("rename = %s" % rs(self.rename))
        if self.skip_s:
            a.append(self.skip_s)
        a.extend(self.extra)
        at = "#[serde(%s)] " % ", ".join(a) if a else ""
        if self.style == "Unit":
            return at + self.ident_s
        fs = ", ".join(f.rust() for f in self.fields)
        return at + self.ident_s + ("(%s)" % fs if self.style == "Tuple" else " { %s }" % fs)


class Base0:
    def __init__(self, n):
        self.n = n


class CDecl:
    def __init__(self, kind, ident, fields=(), variants=(), rename=None, transparent=False, default=None,
                 from_ty=None, try_from=None, tag=None, content=None, untagged=False, docs=None, extra=()):
        self.kind = kind
        self.ident_s = ident
        self.fields = list(fields)
        self.variants = list(variants)
        self.rename = rename
        self.transparent = transparent
        self.default_s = default
        self.from_s = from_ty
        self.try_s = try_from
        self.tag_s = tag
        self.content_s = content
        self.untagged = untagged
        self.docs = docs                # raw attribute text
        self.extra = tuple(extra)
        if transparent:
            c = [f for f in self.fields if not f.skip and f.default_tag == 0]
            for f in c:
                f.transparent = True
                break
        self.base = Base0(len(self.variants if kind == "enum" else self.fields))

    has_from = property(lambda s: s.from_s is not None)
    has_try = property(lambda s: s.try_s is not None)
    default_tag = property(lambda s: 0 if s.default_s is None else 1)

    @property
    def tag_kind(self):
        if self.untagged:
            return 3
        if self.tag_s is None:
            return 0
        return 1 if self.content_s is None else 2

    tag_name = property(lambda s: S(s.tag_s or ""))
    content_name = property(lambda s: S(s.content_s or ""))

    @property
    def name(self):
        if self.rename is not None:
            return self.rename
        return self.ident_s[2:] if self.ident_s.startswith("r#") else self.ident_s

    def field_seq(self):
        return seq_of(self.fields)

    def field_at(self, i):
        return self.fields[i]

    def variant_seq(self):
        return seq_of(self.variants)

    def types(self):
        out = [f.ty_s for f in self.fields]
        for v in self.variants:
            out += [f.ty_s for f in v.fields]
        for x in (self.from_s, self.try_s):
            if x:
                out.append(x)
        return out

    def rust(self):
        a = []
        if self.rename is not None:
            a.append("rename = %s" % rs(self.rename))
        if self.transparent:
            a.append("transparent")
        if self.default_s == "default":
            a.append("default")
        elif self.default_s == "path":
            a.append('default = "dflt"')
        if self.from_s:
            a.append("from = %s" % rs(self.from_s))
        if self.try_s:
            a.append("try_from = %s" % rs(self.try_s))
        if self.tag_s is not None:
            a.append("tag = %s" % rs(self.tag_s))
        if self.content_s is not None:
            a.append("content = %s" % rs(self.content_s))
        if self.untagged:
            a.append("untagged")
        a.extend(self.extra)
        out = "#[derive(serde::Deserialize, zod::Zod)]\n#[zod(namespace = \"Ns\")]\n"
        if a:
            out += "#[serde(%s)]\n" % ", ".join(a)
        if self.docs:
            out += self.docs + "\n"
        if self.kind == "struct":
            out += "pub struct %s {\n%s}\n" % (self.ident_s, "".join("    %s,\n" % f.rust() for f in self.fields))
        elif self.kind == "tuple":
            out += "pub struct %s(%s);\n" % (self.ident_s, ", ".join(f.rust() for f in self.fields))
        else:
            out += "pub enum %s {\n%s}\n" % (self.ident_s, "".join("    %s,\n" % v.rust() for v in self.variants))
        if self.default_s:
            out += "impl Default for %s { fn default() -> Self { unimplemented!() } }\n" % self.ident_s
        if self.from_s:
            out += "impl From<%s> for %s { fn from(_: %s) -> Self { unimplemented!() } }\n" % (
                self.from_s, self.ident_s, self.from_s)
        if self.try_s:
            out += "impl TryFrom<%s> for %s { type Error = String; fn try_from(_: %s) -> Result<Self, String> " \
                   "{ unimplemented!() } }\n" % (self.try_s, self.ident_s, self.try_s)
        return out

    def outcome(self):
        """'ok' or 'abort' (the diagnostics the property allows)."""
        ctx = Ctx()
        if self.kind == "enum":
            return "abort" if all(v.skip for v in self.variants) else "ok"
        if self.kind == "tuple" and not self.transparent and len(self.fields) != 1:
            seen = False
            for f in self.fields:
                if f.skip:
                    continue
                if f.has_default:
                    seen = True
                elif seen:
                    return "abort"
        return "ok"


def rs(s):
    """Rust string literal."""
    out = '"'
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif c == "\n":
            out += "\\n"
        elif ord(c) < 32 or ord(c) == 127 or ord(c) in (0x2028, 0x2029):
            out += "\\u{%x}" % ord(c)
        else:
            out += c
    return out + '"'


class Printer:
    """Text of a specification term, given the texts of the references to the types used."""

    def __init__(self, refs):
        self.refs = refs            # (fn, type text) -> text

    def text(self, s):
        out = []
        for p in s.parts:
            if isinstance(p, str):
                out.append(p)
            elif isinstance(p, Join):
                sep = p.sep if isinstance(p.sep, str) else self.text(p.sep)
                out.append(sep.join(self.text(q.v) for q in p.seq.parts))
            elif p.fn == "strlit":
                out.append(json.dumps(self.text(p.args[0])))
            elif p.fn == "key":
                out.append(json.dumps(self.text(p.args[0])))
            else:
                out.append(self.refs[(p.fn, p.args[0])])
        return "".join(out)


# ------------------------------------------------------------------ token comparison of concrete text
class TsLexError(Exception):
    pass


def unescape(body):
    out = []
    i = 0
    simple = {"n": "\n", "r": "\r", "t": "\t", "b": "\b", "f": "\f", "v": "\v", "0": "\0"}
    while i < len(body):
        c = body[i]
        if c != "\\":
            if c in "\n\r":
                raise TsLexError("line break in string literal")
            out.append(c)
            i += 1
            continue
        i += 1
        if i >= len(body):
            raise TsLexError("bad escape")
        e = body[i]
        if e == "u":
            if body[i + 1:i + 2] == "{":
                j = body.index("}", i)
                out.append(chr(int(body[i + 2:j], 16)))
                i = j + 1
            else:
                cp = int(body[i + 1:i + 5], 16)
                i += 5
                if 0xd800 <= cp < 0xdc00 and body[i:i + 2] == "\\u":
                    lo = int(body[i + 2:i + 6], 16)
                    cp = 0x10000 + ((cp - 0xd800) << 10) + (lo - 0xdc00)
                    i += 6
                out.append(chr(cp))
            continue
        if e == "x":
            out.append(chr(int(body[i + 1:i + 3], 16)))
            i += 3
            continue
        out.append(simple.get(e, e))
        i += 1
    return "".join(out)


def ts_tokens(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c.isspace():
            i += 1
        elif s.startswith("/*", i):
            j = s.find("*/", i + 2)
            if j < 0:
                raise TsLexError("unterminated comment")
            out.append(("c", "\n".join(x.strip() for x in s[i:j + 2].split("\n"))))
            i = j + 2
        elif s.startswith("//", i):
            j = s.find("\n", i)
            j = n if j < 0 else j
            out.append(("c", s[i:j].strip()))
            i = j
        elif c in "\"'":
            j = i + 1
            while j < n and s[j] != c:
                j += 2 if s[j] == "\\" else 1
            if j >= n:
                raise TsLexError("unterminated string")
            out.append(("s", unescape(s[i + 1:j])))
            i = j + 1
        elif c == "`":
            j = s.find("`", i + 1)
            out.append(("t", s[i:j + 1]))
            i = j + 1
        elif c == "/" and out and out[-1] in (("p", "("), ("p", ",")):
            j = i + 1
            cls = False
            while j < n and (cls or s[j] != "/"):
                if s[j] == "[":
                    cls = True
                elif s[j] == "]":
                    cls = False
                j += 2 if s[j] == "\\" else 1
            j += 1
            while j < n and s[j].isalnum():
                j += 1
            out.append(("r", s[i:j]))
            i = j
        elif c.isalnum() or c in "_$" or ord(c) > 127:
            j = i
            while j < n and (s[j].isalnum() or s[j] in "_$" or ord(s[j]) > 127):
                j += 1
            out.append(("w", s[i:j]))
            i = j
        elif s.startswith("=>", i):
            out.append(("p", "=>"))
            i += 2
        else:
            out.append(("p", c))
            i += 1
    # keys: quoted or not; trailing commas
    res = []
    for k, t in enumerate(out):
        nxt = out[k + 1] if k + 1 < len(out) else None
        if t == ("p", ",") and nxt is not None and nxt[0] == "p" and nxt[1] in ")]}":
            continue
        if t[0] == "s" and nxt is not None and nxt[0] == "p" and nxt[1] in (":", "?") and res and \
                res[-1][0] == "p" and res[-1][1] in ("{", ","):
            t = ("k", t[1])
        elif t[0] == "w" and not (t[1][0].isdigit() and not (t[1].isdigit() and t[1] == str(int(t[1])))) \
                and nxt is not None and nxt[0] == "p" and nxt[1] in (":", "?") and res and \
                res[-1][0] == "p" and res[-1][1] in ("{", ","):
            t = ("k", t[1])
        res.append(t)
    return res


def same_ts(a, b):
    try:
        return ts_tokens(a) == ts_tokens(b)
    except (TsLexError, ValueError, IndexError):
        return a == b
