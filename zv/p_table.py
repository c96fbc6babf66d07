"""C21: the type overview table."""
import html
import json
import re
import subprocess
import z3
from core import *
from driver import Task, Battery, Check
from p_core import runner, shape, last
from ts import Mismatch
import harness

ROWS = ["()", "bool", "char", "Option<T>", "Result<T,U>", "Vec<T>", "&str", "String", "u8", "u16", "u32", "u64", "u128", "i8", "i16",
        "i32", "i64", "i128", "usize", "isize", "f32", "f64", "Box<T>", "Arc<T>", "Rc<T>", "Cow<T>", "Cell<T>", "RefCell<T>", "Mutex<T>",
        "Weak<T>", "PhantomData<T>", "HashSet<T>", "HashMap<T,U>", "BTreeSet<T>", "BTreeMap<T,U>"]


def desc(t):
    """A type as it is written in the table."""
    if t[0] == "adt" and not isinstance(t[1], str):
        return t[1].name
    n, a = shape(t)
    if n is None:
        raise Unsupported("type %r" % (t,))
    if n.startswith("tuple"):
        return "(" + ",".join(desc(x) for x in a) + ")"
    return n + ("<" + ",".join(desc(x) for x in a) + ">" if a else "")


def plain(label):
    """A row's label as a type: lifetimes, blanks, paths and the digits after a parameter left out; E is U."""
    s = re.sub(r"'static\s*,?|\s+", "", html.unescape(label))
    s = re.sub(r"\b([TU])\d\b", r"\1", s)
    s = re.sub(r"(\w+::)+", "", s)
    return re.sub(r"\bE\b", "U", s)


ROW = re.compile(r"\s*\[(.*?)\](?:\((.*?)\))?[ ]*\n```ignore(?:// schema)?\n(?:// schema\n)?", re.S)


def rows(text, schema):
    """[(label, schema)]: `schema(text, pos)` reads a schema and gives (value, end)."""
    m = re.match(r"## Type Overview\s*", text)
    if not m:
        raise Mismatch("no heading: %r" % text[:60])
    pos = m.end()
    out = []
    while text[pos:].strip():
        m = ROW.match(text, pos)
        if not m:
            raise Mismatch("not a row: %r" % text[pos:pos + 80])
        for g in (m.group(1), m.group(2) or ""):
            if re.search(r"[<>|]", g):
                raise Mismatch("an unescaped metacharacter in %r" % g)
        v, pos = schema(text, m.end())
        m2 = re.compile(r"\n```[ ]*(\n|$)").match(text, pos)
        if not m2:
            raise Mismatch("the row of %s holds more than its schema: %r" % (m.group(1), text[pos:pos + 60]))
        pos = m2.end()
        out.append((m.group(1), v))
    return out


def listed(names):
    if len(set(names)) != len(names):
        raise Mismatch("rows appear twice: %s" % [x for x in names if names.count(x) > 1])
    have = [x for x in names if x in ROWS]
    if have != ROWS:
        raise Mismatch("rows %s, expected %s" % (have, ROWS))


def type_name(it, args, want, fc):
    """std::any::type_name of the primitive types (the full path of any other)."""
    t = it.m.cur_targs[1][0]
    d = t[0] == "adt" and isinstance(t[1], str) and not t[2] and t[1]
    if d and re.match(r"([iu](8|16|32|64|128|size)|f32|f64|bool|char|str)$", d):
        return S(d)
    if t[0] == "ref" and t[1][0] == "adt" and t[1][1] == "str":
        return S("&str")
    return S("$full::" + desc(t))


def table_task(prog, deadline):
    def body(it, attempt):
        it.extra_ext["std::any::type_name"] = type_name
        gen = [d for d in prog.find_fns("generate") if d.module.crate == "zod_core" and d.module.path[-1:] == ["docs"]]

        def check():
            if len(gen) != 1:
                raise Unsupported("docs::generate not found")
            seen = []

            def model(t, name, args):
                if args == "?":
                    return name in ("schema", "inline_schema", "type_def", "inline")
                k = len(seen)
                seen.append((name, desc(t)))
                return S("\x01%d\x02" % k)
            it.overrides["ZodType"] = model
            r = it.ctx.explore(lambda: it.m.to_s(it.deref(it.call_defn(gen[0], [], None, None))))
            it.overrides.clear()
            if len(r) != 1 or r[0][1] != "ok":
                raise Mismatch("%s" % [x[1:] for x in r])
            c = r[0][2].const()
            if c is None:
                raise Unsupported("the table is not a constant text")

            def schema(t, pos):
                m = re.compile("\x01(\\d+)\x02").match(t, pos)
                if not m:
                    raise Mismatch("not a schema: %r" % t[pos:pos + 60])
                return seen[int(m.group(1))], m.end()
            rs = rows(c, schema)
            names = []
            for label, (fn, d) in rs:
                if fn != "schema":
                    raise Mismatch("the row of %s shows %s()" % (label, fn))
                if plain(label) != d:
                    raise Mismatch("the row of %s shows the schema of %s" % (label, d))
                names.append(d)
            listed(names)
            return len(rs)
        attempt("docs::generate: one row per listed type in order, its label the type of which it shows the schema, escaped", check)

        def esc():
            """escape replaces characters one by one: `<`, `>` and `|` by references to them, and nothing else."""
            ds = [d for d in prog.find_fns("escape") if d.module.crate == "zod_core" and d.module.path[-1:] == ["docs"]]
            if len(ds) != 1:
                raise Unsupported("escape not found")
            n = 0
            for conds, kind, v in it.ctx.explore(lambda: it.m.to_s(it.call_defn(ds[0], [S(Hole("label"))], None, None))):
                if kind != "ok":
                    raise Mismatch("%s: %s" % (kind, v))
                chain = []
                while v.const() is None and len(v.parts) == 1 and isinstance(v.parts[0], Hole) and v.parts[0].fn == "replace":
                    x, a, b = v.parts[0].args
                    chain.append((a.const(), b.const()))
                    v = x
                if repr(v) != repr(S(Hole("label"))):
                    raise Unsupported("escape computes %r" % v)
                chain.reverse()
                if any(len(a) != 1 for a, b in chain):
                    raise Unsupported("replacement of longer strings")
                # one character patterns: the text of a string is the concatenation of the texts of its characters
                for ch in [chr(i) for i in range(1, 128)] + ["\u00e9"]:
                    s = ch
                    for a, b in chain:
                        s = s.replace(a, b)
                    n += 1
                    if any(m in s for m in "<>|") or html.unescape(s) != ch and ch != "&" and s != ch:
                        raise Mismatch("%r becomes %r" % (ch, s))
                    if ch not in "<>|" and s != ch and html.unescape(s) != ch:
                        raise Mismatch("%r becomes %r" % (ch, s))
            return n
        attempt("docs::escape: `<`, `>` and `|` become character references, every other character stays", esc)
    return runner(prog, deadline, body)


MAIN = """
use std::collections::*;
struct T; struct U;
impl zod::ZodType for T { fn schema() -> String { "T".into() } fn type_def() -> zod::TsTypeDef { zod::TsTypeDef::Type("T".into()) } }
impl zod::ZodType for U { fn schema() -> String { "U".into() } fn type_def() -> zod::TsTypeDef { zod::TsTypeDef::Type("U".into()) } }
type Arc<X> = std::sync::Arc<X>; type Rc<X> = std::rc::Rc<X>; type Cell<X> = std::cell::Cell<X>; type RefCell<X> = std::cell::RefCell<X>;
type Mutex<X> = std::sync::Mutex<X>; type Weak<X> = std::sync::Weak<X>; type PhantomData<X> = std::marker::PhantomData<X>;
type Cow<X> = std::borrow::Cow<'static, X>;
impl Clone for T { fn clone(&self) -> T { T } }
fn row<X: zod::ZodType>(n: &str) { println!("{}", serde_json::json!({"row": n, "schema": X::schema()})); }
fn main() {
    println!("{}", serde_json::json!({"table": zod::docs::generate()}));
%s
}
"""


def table_battery(seed, tier):
    d = harness.project("tablebat", {"main.rs": MAIN % "\n".join('    row::<%s>("%s");' % (x, x) for x in ROWS)})
    exe = harness.cargo_build(d, "tablebat")
    out = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    fails, cases = [], 0

    def bad(what, inp, e, a):
        fails.append({"what": what, "input": inp, "expected": e, "actual": a})
    if out.returncode:
        bad("docs::generate() crashes", "generate()", "a table", out.stderr.decode()[-400:])
        return {"cases": 1, "failures": fails, "bound": "the table"}
    js = [json.loads(x) for x in out.stdout.decode().splitlines()]
    table = js[0]["table"]
    want = {x["row"]: x["schema"] for x in js[1:]}

    def schema(t, pos):
        e = t.find("\n", pos)
        e = len(t) if e < 0 else e
        return t[pos:e], e
    try:
        rs = rows(table, schema)
        for label, s in rs:
            cases += 1
            if plain(label) in want and want[plain(label)] != s:
                bad("a row shows another schema", label, want[plain(label)], s)
        listed([plain(x) for x, _ in rs])
        cases += len(ROWS)
    except Mismatch as e:
        bad("the type overview table", "zod::docs::generate()", "the listed rows", e.msg)
    return {"cases": cases, "failures": fails, "bound": "the complete table (it has no input)"}


PLAIN = """
struct T;
impl zod::ZodType for T { fn schema() -> String { "T".into() } fn type_def() -> zod::TsTypeDef { zod::TsTypeDef::Type("T".into()) } }
fn main() { println!("{}", <Vec<T> as zod::ZodType>::schema()); }
"""


def profile_battery(seed, tier):
    """A program which uses the crate, built without debug assertions."""
    d = harness.project("plainbat", {"main.rs": PLAIN})
    with harness.Profile():
        try:
            exe = harness.cargo_build(d, "plainbat")
        except harness.BuildError as e:
            if not any(t in ("zod", "zod_core", "zod_derive", "zod-core", "zod-derive") for t, _, _ in e.errors):
                raise
            return {"cases": 1, "bound": "one program, built without debug assertions", "failures": [
                {"what": "a build without debug assertions needs the overview which it does not generate",
                 "input": "cargo build --release", "expected": "it compiles", "actual": str(e)}]}
    out = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    fails = [] if out.stdout.decode().strip() == "z.array(T)" else [
        {"what": "a schema in a build without debug assertions", "input": "Vec<T>", "expected": "z.array(T)",
         "actual": out.stdout.decode() + out.stderr.decode()[-300:]}]
    return {"cases": 1, "failures": fails, "bound": "one program, built without debug assertions"}


def c21():
    return Check("C21", [Task("docs::generate", table_task)], [Battery("generated table", table_battery), Battery("build without debug assertions", profile_battery)],
                 assumptions=["std::any::type_name of a primitive type is its name; that of another type (used as a label) would be its full path",
                              "std contracts (zv/std_models.py): format!, str::replace, iterators"])
