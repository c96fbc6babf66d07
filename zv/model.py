"""Concrete declarations from solver models."""
import re
import z3
from core import *
import decl as decl_mod
import std_models as sm


def extract(ctx, D, limit=3):
    """A small declaration on which the current path is feasible, or None."""
    saved = ctx.seq
    try:
        for n in range(0, limit + 1):
            r = try_size(ctx, D, n)
            if r is not None:
                return r
    except Unsupported:
        return None
    finally:
        ctx.seq = saved
    return None


def pin_classes(ctx, base):
    """With all elements known, the counts are exact."""
    for c in ctx.classes:
        if c.comp.base.fn == base.fn and c.pres:
            yield c


def try_size(ctx, D, n):
    ctx.solver.push()
    snap = ctx.snapshot()
    npres = [(c, len(c.pres)) for c in ctx.classes]
    try:
        s = ctx.solver
        s.add(D.base.n == n)
        if s.check() != z3.sat:
            return None
        for i in range(n):
            ctx.new_elem(D.base, "x", z3.IntVal(i))
            if D.kind == "enum":
                D.variant(z3.IntVal(i))
            else:
                D.field(z3.IntVal(i))
        sizes = []
        if D.kind == "enum":
            for i in range(n):
                b = D.vbase(z3.IntVal(i))
                s.add(b.n <= 3)
                for j in range(3):
                    f = decl_mod.Field(D, None, (z3.IntVal(i), z3.IntVal(j)), None)
                    x = D.variant(z3.IntVal(i))
                    s.add(z3.And(f.default_tag >= 0, f.default_tag <= 2))
                    s.add(z3.Implies(x.style_tag != 0, z3.Not(f.flatten)))
                    s.add(z3.Not(f.transparent))
        for c in ctx.classes:
            if c.comp.base.fn == D.base.fn:
                ps = {}
                for e, p in c.pres:
                    ps[e.idx.get_id()] = p
                ins = []
                for i in range(n):
                    k = z3.IntVal(i).get_id()
                    if k in ps:
                        ins.append(z3.If(ps[k], 1, 0))
                if len(ins) == n:
                    s.add(c.cnt == (z3.Sum(ins) if ins else 0))
        if s.check() != z3.sat:
            return None
        m = s.model()
        consts = list(sm._consts)

        def val(t):
            if isinstance(t, (bool, int)):
                return t
            v = m.eval(t, model_completion=True)
            if z3.is_int_value(v):
                return v.as_long()
            return z3.is_true(v)

        def const(s_):
            """Text of an unknown string the path pins to a constant."""
            c = sm.hole_term(s_.parts[0])
            v = m.eval(c)
            if z3.is_int_value(v) and v.as_long() < 0 and -1 - v.as_long() < len(consts):
                return consts[-1 - v.as_long()]
            return None

        def ty_of(f):
            o = f.ty[1]
            k = m.eval(decl_mod.zf("tykind:" + o.kind, list(o.args), z3.IntSort()))
            if not z3.is_int_value(k):
                return None
            k = sm.Models.TYPE_KINDS[k.as_long()] if 0 <= k.as_long() < len(sm.Models.TYPE_KINDS) else "Path"
            return (k, const(S(Hole("tylast:" + o.kind, tuple(o.args)))))

        def field(f):
            return {"name": const(f.name), "ident": const(f.ident.s), "ty": ty_of(f), "skip": val(f.skip), "flatten": val(f.flatten), "default": val(f.default_tag),
                    "transparent": val(f.transparent)}
        out = {"kind": D.kind, "n": n, "transparent": val(D.transparent), "default": val(D.default_tag),
               "name": const(D.name), "tagname": const(D.tag_name), "content": const(D.content_name),
               "from": val(D.has_from), "try": val(D.has_try), "tag": val(D.tag_kind), "fields": [], "variants": []}
        for i in range(n):
            I = z3.IntVal(i)
            if D.kind == "enum":
                x = decl_mod.Variant(D, I)
                k = val(D.vbase(I).n)
                out["variants"].append({"name": const(x.name), "skip": val(x.skip), "style": val(x.style_tag), "fields": [
                    field(decl_mod.Field(D, None, (I, z3.IntVal(j)), None)) for j in range(k)]})
            else:
                f = D.field(I)
                out["fields"].append(field(f))
        return out
    finally:
        ctx.solver.pop()
        ctx.restore(snap)
        for c, k in npres:
            del c.pres[k:]


TYS = ["u8", "String", "bool", "i64"]
FLATS = ["Inner1", "Inner2", "Inner3"]
KEYWORDS = "as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self static struct super trait true type unsafe use where while async await dyn".split()
NAMES = ["alpha", "beta", "gamma", "delta"]


def to_concrete(m, k):
    """CDecl for a model (field names and types are chosen; they are opaque to the proof)."""
    import concrete

    def pick(t, i):
        if t is None:
            return TYS[i % 4]
        k, last = t
        if k == "Path":
            return {"Option": "Option<u8>", "Vec": "Vec<u8>", "String": "String", "bool": "bool", "Box": "Box<u8>",
                    "HashMap": "std::collections::HashMap<String, u8>", "BTreeMap": "std::collections::BTreeMap<String, u8>",
                    "HashSet": "std::collections::HashSet<u8>", "BTreeSet": "std::collections::BTreeSet<u8>",
                    "Rc": "std::rc::Rc<u8>", "Arc": "std::sync::Arc<u8>", "Result": "Result<u8, String>"}.get(
                        last, last if last in ("u8", "u16", "u32", "i8", "i16", "i32", "u64", "i64", "f32", "f64", "char",
                                               "usize", "isize") else TYS[i % 4])
        return {"Tuple": "(u8, String)", "Array": "[u8; 3]", "Paren": "(u8)"}.get(k, TYS[i % 4])

    def mk(fs, named, transparent=False, newtag=None):
        out = []
        for i, f in enumerate(fs):
            ident = NAMES[i]
            if f.get("ident") and re.fullmatch(r"[a-z_][a-z0-9_]*", f["ident"]) and f["ident"] not in KEYWORDS:
                ident = f["ident"]
            c = concrete.CField(ident if named else None, pick(f.get("ty"), i))
            if f["skip"]:
                c.skip_s = "skip_deserializing"
            elif f["default"]:
                c.default_s = "default" if f["default"] == 1 else "path"
            if f["flatten"] and named:
                c.flatten = True
                c.ty_s = FLATS[i % 3]
            if named and f.get("name") is not None and not c.flatten:
                c.rename = f["name"]
            elif named and i % 2 == 1 and not c.flatten:
                c.rename = "re-" + NAMES[i]
            if transparent and not f["transparent"]:
                c.skip_s = "skip"
                c.flatten = False
            out.append(c)
        return out
    kw = {}
    if m["from"]:
        kw["from_ty"] = "Vec<Other>"
    elif m["try"]:
        kw["try_from"] = "Vec<Other>"
    tname = m.get("tagname") if m.get("tagname") is not None else "t"
    cname = m.get("content") if m.get("content") is not None else "c"
    if cname == tname:
        cname = tname + "_"
    if m["kind"] == "enum":
        tag = m["tag"]
        if tag == 1:
            kw["tag"] = tname
        elif tag == 2:
            kw["tag"], kw["content"] = tname, cname
        elif tag == 3:
            kw["untagged"] = True
        vs = []
        for i, v in enumerate(m["variants"]):
            st = ["Struct", "Tuple", "Unit"][v["style"]]
            fs = mk(v["fields"], st == "Struct") if st != "Unit" else []
            if tag == 1 and st == "Tuple":
                for f in fs:
                    f.ty_s = "Inner1"
                    f.default_s = None
            x = concrete.CVariant(["Aa", "Bb", "Cc"][i], st, fs, rename=v["name"] if v.get("name") is not None else "Re%d" % i if i == 1 else None)
            if v["skip"]:
                x.skip_s = "skip_deserializing"
            vs.append(x)
        return concrete.CDecl("enum", "X%d" % k, variants=vs, rename=m.get("name") or "XR%d" % k, **kw)
    fs = mk(m["fields"], m["kind"] == "struct", m["transparent"])
    if m["default"] and m["kind"] == "struct":
        kw["default"] = "default" if m["default"] == 1 else "path"
    return concrete.CDecl(m["kind"], "X%d" % k, fields=fs, rename=m.get("name") or "XR%d" % k, transparent=m["transparent"], **kw)
