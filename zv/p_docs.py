"""C16: documentation comments."""
import json
import random
import subprocess
import time
import z3
from core import *
from interp import Interp, FCtx, Env
from rparse import P
import concrete
import decl
import harness
from driver import Task, Battery, Check
from p_core import runner
from ts import Mismatch


def attrs_model(it):
    """An arbitrary list of attributes: each is a doc attribute with a string, or anything else."""
    ctx = it.ctx
    base = Base("attrs", (), lambda i: None)
    for c in (base.n >= 0,) if hasattr(base, "n") else ():
        ctx.assume(c)
    B, I = z3.BoolSort(), z3.IntSort()
    is_meta, is_nv, is_doc, is_str = [z3.Function("attr:" + n, I, B) for n in ("meta", "nv", "doc", "str")]

    def attr(i):
        def meta():
            path = Obj("metapath", (i,))
            nv = Obj("MetaNameValue", (i,), {"fields": {
                "path": path, "lit": lambda: SymEnum("Lit", z3.If(is_str(i), 0, 1), [
                    ("Str", lambda: (Obj("LitStr", (i,)),)), ("Other", lambda: (Obj("lit"),))])}})
            return SymEnum("Meta", z3.If(is_nv(i), 0, 1), [
                ("NameValue", lambda: (nv,)), ("List", lambda: (Obj("MetaList"),))])
        return Obj("Attribute", (i,), {"fields": {"path": Obj("metapath", (i,)), "tokens": Obj("attrtokens", (i,))},
                                       "meta": meta})

    def hook(it, v, name, getargs, n, place):
        if isinstance(v, Obj):
            i = v.args[0] if v.args else None
            if v.kind == "Attribute" and name == "parse_meta":
                return SymEnum("Result", z3.If(is_meta(i), 0, 1), [
                    ("Ok", lambda: (v.meta["meta"](),)), ("Err", lambda: (Obj("synerr"),))])
            if v.kind == "metapath" and name == "is_ident":
                a = it.m.to_s(getargs()[0]).const()
                if a == "doc":
                    return is_doc(i)
                raise Unsupported("is_ident(%r)" % a)
            if v.kind == "LitStr" and name == "value":
                return S(Hole("doc", (i,)))
        return NotImplemented
    it.extra_methods.append(hook)
    seq = SeqV([Comp(base, lambda e: [One(attr(e.idx))], True)], "slice")
    cond = lambda i: z3.And(is_meta(i), is_nv(i), is_doc(i), is_str(i))
    return seq, base, cond


def fold_same(it, got, base, cond):
    """The collected text is the fold of the specification over the same attributes."""
    ctx = it.ctx
    if len(got.parts) != 1 or not isinstance(got.parts[0], Fold):
        raise Unsupported("the text is not collected attribute by attribute")
    f = got.parts[0]
    if not (isinstance(f.init, S) and f.init.const() == ""):
        raise Mismatch("does not start empty")
    if not ctx._same_base(f.comp.base, base) or f.comp.rev:
        raise Mismatch("not in the order of the attributes", False)

    def go():
        e = ctx.new_elem(base, "d")
        acc = S(Hole("collected"))
        new = f.step(acc, e)
        # the loop runs over the attributes themselves
        doc = S(Hole("trim", (S(Hole("doc", (e.idx,))),)))
        if not ctx.branch(cond(e.idx)):
            want = [acc]
        elif it.truth(it.m.s_empty(acc)):
            want = [doc, S(acc, doc)]
        else:
            want = [S(acc, "\n", doc)]
        return new, want
    n = 0
    for conds, kind, r in ctx.explore(go):
        if kind != "ok":
            raise Mismatch("%s while collecting" % kind)
        new, want = r
        n += 1
        if not any(same(new, w) for w in want):
            raise Mismatch("a doc line is added as %r instead of %r" % (new, want[0]))
    return n


def same(a, b):
    return norm_s(a) == norm_s(b)


def norm_s(s):
    return repr(S(*[p for p in s.parts if p != ""]))


class Lang:
    """Can the text contain the comment terminator? `star`: the text may end with '*'."""

    def __init__(self):
        self.star = False

    def const(self, c):
        if self.star and c.startswith("/") or "*/" in c:
            raise Mismatch("the comment may end inside the documentation")
        if c:
            self.star = c.endswith("*")

    def clean_hole(self):
        """Any text without the terminator."""
        if self.star:
            raise Mismatch("the comment may end inside the documentation")
        self.star = True


def escape_ok(r):
    """replace("*/", r) leaves no terminator, whatever the text, and keeps both characters."""
    if not r or "*/" in r or r[0] == "/" or r[-1] == "*":
        raise Mismatch("`*/` replaced by `%s` can still end the comment" % r)
    i = r.find("*")
    if i < 0 or "/" not in r[i:]:
        raise Mismatch("the documentation loses text: `*/` becomes `%s`" % r)


def rendering(it, got, docs):
    """got: the emitted text for the collected documentation `docs`."""
    ps = list(got.parts)
    joins = [k for k, p in enumerate(ps) if isinstance(p, Join)]
    if len(joins) != 1:
        raise Unsupported("rendering %r" % (got,))
    k = joins[0]
    head, tail = S(*ps[:k]).const(), S(*ps[k + 1:]).const()
    if head is None or tail is None:
        raise Unsupported("rendering %r" % (got,))
    if not head.lstrip().startswith("/*") or head.strip().strip("/*") != "":
        raise Mismatch("does not start a block comment: %r" % head)
    if not tail.rstrip().endswith("*/") or tail.strip().strip("/*") != "":
        raise Mismatch("does not end the block comment: %r" % tail)
    j = ps[k]
    sep = j.sep.const() if isinstance(j.sep, S) else j.sep
    parts = j.seq.parts
    if len(parts) != 1 or not isinstance(parts[0], Comp) or parts[0].rev:
        raise Unsupported("rendering of lines")
    base = parts[0].base
    if base.fn != "lines<%r>" % (docs,):
        raise Mismatch("not the lines of the documentation: %s" % base.fn, False)

    def go():
        e = it.ctx.new_elem(base, "l")
        xs = parts[0].body(e)
        if len(xs) != 1 or not isinstance(xs[0], One):
            raise Mismatch("a line is dropped or repeated", True)
        return e, it.m.to_s(xs[0].v)
    n = 0
    for conds, kind, r in it.ctx.explore(go):
        if kind != "ok":
            raise Mismatch("%s while rendering" % kind)
        e, s = r
        n += 1
        line = S(Hole("line", (docs, e.idx)))
        L = Lang()
        L.const(head if head.strip() else "")
        L.star = head.rstrip(" \t").endswith("*") and head.endswith("*")
        pre, post, seen = "", "", 0
        body = [x for x in s.parts] + [sep]
        for x in body:
            if isinstance(x, str):
                L.const(x)
                if seen:
                    post += x
                else:
                    pre += x
            elif isinstance(x, Hole):
                seen += 1
                h = x
                if h.fn in ("trim", "trim_end", "trim_start"):
                    h = h.args[0].parts[0] if isinstance(h.args[0], S) and len(h.args[0].parts) == 1 else h
                if h.fn == "replace" and isinstance(h.args[0], S):
                    src, a, b = h.args
                    while len(src.parts) == 1 and isinstance(src.parts[0], Hole) and src.parts[0].fn.startswith("trim"):
                        src = src.parts[0].args[0]
                    if repr(src) != repr(line) or a.const() != "*/":
                        raise Unsupported("line rendered as %r" % (s,))
                    escape_ok(b.const() or "")
                    L.clean_hole()
                elif repr(S(h)) == repr(line):
                    raise Mismatch("a line containing `*/` ends the comment")
                else:
                    raise Unsupported("line rendered as %r" % (s,))
            else:
                raise Unsupported("line rendered as %r" % (s,))
        if seen != 1:
            raise Mismatch("a line is rendered %d times" % seen)
        if pre.strip().strip("*") != "" or post.strip() != "":
            raise Mismatch("text is added to a line: %r" % (s,))
        if not ("\n" in post or "\n" in pre):
            raise Mismatch("lines are not separated")
        # an escaped line may end in '*'; what follows must not start with '/'
        L2 = Lang()
        L2.star = "\n" not in post
        L2.const(tail[:-2] if tail.endswith("*/") else tail.rstrip()[:-2])
    return n


def docs_task(prog, deadline):
    def body(it, attempt):
        decl_ext(it)
        seq, base, cond = attrs_model(it)
        ds = prog.find_fns("RustDocs::from_attrs")
        state = {}

        def collect():
            if len(ds) != 1:
                raise Unsupported("RustDocs::from_attrs not found")
            d = ds[0]
            ty = ("adt", self_defn(it, d), [])
            n = 0
            seen = []
            for conds, kind, r in it.ctx.explore(lambda: run(it, d, seq, ty)):
                if kind != "ok":
                    raise Mismatch("%s for some attributes: %s" % (kind, r))
                n += 1
                pos = any(z3.is_const(c) and str(c).startswith("fold_empty") for c in conds)
                neg = any(z3.is_not(c) and str(c.arg(0)).startswith("fold_empty") for c in conds)
                if r[0] == "none" and not pos:
                    raise Mismatch("documentation may be dropped", False)
                if r[0] == "some" and not neg:
                    raise Mismatch("an undocumented item may get a comment", False)
                seen.append(r)
            state["n"] = n
            for what, got in seen:
                if what == "none":
                    continue
                state["docs"] = got
                n += fold_same(it, got, base, cond)
            if not any(w == "some" for w, _ in seen):
                raise Mismatch("no documentation is kept")
            return n
        attempt("RustDocs::from_attrs collects the trimmed text of exactly the doc attributes, in order, as lines; "
                "none if there is no text", collect)

        def render():
            n = 0
            for conds, kind, r in it.ctx.explore(lambda: emit(it, prog, ds[0], S(Hole("docs_text")))):
                if kind != "ok":
                    raise Mismatch("%s while rendering" % kind)
                n += rendering(it, r, S(Hole("docs_text")))
            return n
        attempt("one block comment with every line, which ends only at its own terminator", render)

        def nothing():
            n = 0
            for conds, kind, r in it.ctx.explore(lambda: emit(it, prog, ds[0], None)):
                if kind != "ok" or r.const() != "":
                    raise Mismatch("an undocumented item renders %r" % (r,))
                n += 1
            return n
        attempt("no documentation renders no comment", nothing)
    return runner(prog, deadline, body)


def decl_ext(it):
    it.extra_ext["TokenStream::new"] = lambda it, a, w, fc: TokV([])


def self_defn(it, d):
    im = d.impl
    return it.type_val(im.ty, FCtx(d.module))[1]


def inner_of(it, v):
    """The collected text (an Option<String> field of RustDocs)."""
    v = it.deref(v)
    fs = [it.deref(x) for x in v.fields.values()]
    if len(fs) != 1:
        raise Unsupported("layout of RustDocs")
    return fs[0]


def run(it, d, seq, ty):
    r = it.m.force_enum(it.deref(it.call_defn(d, [seq], ty, d.impl)))
    if r.variant != "Ok":
        raise Mismatch("documentation is rejected")
    o = it.m.force_enum(inner_of(it, r.payload[0]))
    if o.variant == "None":
        return "none", None
    return "some", it.m.to_s(o.payload[0])


def emit(it, prog, d, text):
    """Text of the literal RustDocs emits when `text` was collected."""
    D = self_defn(it, d)
    fields = [f for f in D.node.fields] if hasattr(D.node, "fields") else None
    names = [getattr(f, "name", None) for f in fields]
    if len(names) != 1:
        raise Unsupported("layout of RustDocs")
    v = StructV(D.name, {names[0]: some(text) if text is not None else NONE}, D)
    toks = it.q.value_tokens(v, None)
    e = P(list(toks)).expr()
    return it.m.to_s(it.eval(e, Env(), FCtx(d.module)))


# ------------------------------------------------------------------------------------- battery
LINES = ["one", "  two words  ", "", "ends */ here", "**/", "/* open", "*/ */", "*", "/", "*//*", "`code` \"q\" \\ back",
         "ünïcode 日本", "a\tb", "// line", "${x}", "- list *", "a\\*/b", "   ", "@param x", "last /", "ends in \\", "\\", "ends in .", "x;", "é", "TODO: x", "# heading", "{{x}}", "%s", "\"", "<b>"]


def doc_sets(seed, tier):
    r = random.Random(seed)
    out = [[], [""], ["   "], ["", "", "x"], ["x", "", "y"], ["", "x", ""], ["a", "", "", "b", ""], ["*/"], ["x*", "/y"], ["multi\nline\n  third  "],
           ["\n\nleading", "x"], ["a\n\nb", "", "c"]]
    out += [[l] for l in LINES]
    out += [["word %d of a long text" % i for i in range(400)], ["x" * 20000, "y"], ["y", "", "x " * 5000 + "*/", "z"]]
    for _ in range(40 if tier == "quick" else 200):
        out.append([r.choice(LINES) for _ in range(r.choice((1, 2, 3, 4, 6)))])
    return out


def expected_lines(ds):
    """Lines of the documentation: each doc text trimmed, leading blank ones dropped, one per line."""
    text = ""
    for d in ds:
        d = d.strip()
        text = text + "\n" + d if text else d
    return [l.strip() for l in text.split("\n")] if text else []


def check_comment(s, ds):
    want = expected_lines(ds)
    if not want:
        return None if not (s or "").strip() else "a comment although there is no documentation"
    s = (s or "")
    t = s.strip()
    if not t.startswith("/*") or not t.endswith("*/"):
        return "no block comment"
    if t.find("*/", 2) != len(t) - 2:
        return "the comment ends early"
    inner = t[2:-2]
    if inner.startswith("*"):
        inner = inner[1:]
    lines = inner.split("\n")
    if lines and not lines[0].strip():
        lines = lines[1:]
    if lines and not lines[-1].strip():
        lines = lines[:-1]
    got = []
    for l in lines:
        r = l.lstrip()
        r = r[1:] if r.startswith("*") else r
        r = r[1:] if r.startswith(" ") else r
        if r.strip() and r != r.strip() and not any("\n" in d for d in ds):
            return "a line is not trimmed: %r" % (l,)
        got.append(r.strip())
    # an escape inside a terminator is allowed
    import re
    norm = lambda l: re.sub(r"\*[\\\u200b ]+/", "*/", l)
    while got and not got[-1]:
        got.pop()
    while want and not want[-1]:
        want.pop()
    if len(got) != len(want) or any(norm(a) != norm(b) for a, b in zip(got, want)):
        return "the lines differ: %r" % (got,)
    return None


DOC_ITEMS = (("#[derive(serde::Deserialize, zod::Zod)]\n#[zod(namespace = \"Ns\")]\n%s\npub struct %s { a: u8 }", "zod"),
             ("#[derive(serde::Deserialize, zod::Zod)]\n#[zod(namespace = \"Ns\")]\n%s\npub enum %s { A, B }", "zod"),
             ("#[derive(serde::Deserialize, zod::Zod)]\n#[zod(namespace = \"Ns\")]\n%s\npub struct %s(u8, u8);", "zod"),
             ("#[derive(zod::Namespace)]\n%s\npub struct %s;", "ns"))


def docs_battery(seed, tier):
    sets = doc_sets(seed, tier)
    main = [harness.PRELUDE]
    calls = []
    cases = []
    k = 0
    for ds in sets:
        for form, (tpl, what) in enumerate(DOC_ITEMS):
            if form not in (0, 3) and k % 5:
                k += 1
                continue
            name = "D%d" % k
            k += 1
            at = []
            for i, l in enumerate(ds):
                if k % 3 == 0 and i % 2 == 0:
                    at.append("#[allow(dead_code)]")
                at.append("#[doc = %s]" % concrete.rs(l))
            if k % 4 == 0:
                at.append("#[doc(hidden)]")
            if k % 7 == 0:
                at.append("#[doc(alias = \"x\")]")
            main.append(tpl % ("\n".join(at), name))
            tr = "zod::ZodType" if what == "zod" else "zod::Namespace"
            calls.append('    println!("{}", serde_json::json!({"k": %d, "docs": <%s as %s>::docs()}));' % (len(cases), name, tr))
            cases.append((name, what, ds))
    main.append("fn main() {\n" + "\n".join(calls) + "\n}\n")
    d = harness.project("docs", {"main.rs": "\n".join(main)})
    exe = harness.cargo_build(d, "docs")
    p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    fails = []
    for line in p.stdout.decode().splitlines():
        j = json.loads(line)
        name, what, ds = cases[j["k"]]
        e = check_comment(j["docs"], ds)
        if e:
            fails.append({"what": "documentation of a %s" % ("type" if what == "zod" else "namespace"), "input": ds,
                          "expected": expected_lines(ds), "actual": "%s: %r" % (e, j["docs"])})
    return {"cases": len(cases), "bound": "fixed and pseudo-random doc texts on four kinds of items", "failures": fails[:30]}


ASSUME = ["syn: parse_meta of a doc attribute yields NameValue `doc` with its string; is_ident compares the path",
          "contracts of str::trim, lines, replace, is_empty, push (zv/std_models.py)"]


def c16():
    from p_derive import tasks, ASSUME as A
    import p_reg
    import rpc_battery
    return Check("C16", [Task("docs", docs_task), Task("Backend::generate_with_options", p_reg.docs_task)] + tasks(("struct", "tuple", "enum"), ["docs"]),
                 [Battery("doc comments", docs_battery), Battery("comments in the client", rpc_battery.client_docs_battery)], None, ASSUME + A)
