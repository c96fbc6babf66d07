"""Checks of the built-in implementations of ZodType: C05 (scalars), C06 (containers), and the built-in
part of C04 (references)."""
import json
import os
import re
import subprocess
import time
import z3
from core import *
from interp import Interp, FCtx
from driver import Task, Battery, Check
from derive_check import Rec
import concrete
import harness
import ts
import zodcalls
from ts import Mismatch

VIEWS = ("schema", "inline_schema", "type_def", "inline")


def opaque(name):
    return ("obj", Obj(name))


def zod_model(t, name, args):
    """An arbitrary type implementing ZodType: all of its views are opaque."""
    if args == "?":
        return name in VIEWS + ("docs",)
    k = t[1].kind if t[0] == "obj" else repr(t)
    if name in ("schema", "inline_schema"):
        return S(Hole(name, (k,)))
    if name == "inline":
        return Obj("InlinedType", (k,), {"display": lambda: S(Hole("inline", (k,)))})
    if name == "type_def":
        return Obj("TsTypeDef", (k,), {"display": lambda: S(Hole("type_def", (k,)))})
    raise Unsupported("ZodType::" + name)


def last(p):
    return p.split("::")[-1]


def shape(t):
    """(constructor name, arguments) of the self type of an implementation."""
    if t[0] == "adt" and isinstance(t[1], str):
        return last(t[1]), t[2]
    if t[0] == "tuple":
        return "tuple%d" % len(t[1]), t[1]
    if t[0] == "array":
        return "array", [t[1]]
    if t[0] == "ref":
        n, a = shape(t[1])
        return "&" + n, a
    return None, []


def impls(prog, it):
    """{constructor: [(self type, generics in scope)]} of the implementations in zod_core::build_ins."""
    out = {}
    for im in prog.impls:
        if im.trait_name != "ZodType" or im.module.crate != "zod_core" or im.module.path[-1:] == ["docs"]:
            continue
        fc = FCtx(im.module)
        fc.tparams = {g.name: (opaque(g.name) if g.kind == "tparam" else z3.Int("N_" + g.name)) for g in im.generics
                      if g.kind in ("tparam", "cparam")}
        t = it.type_val(im.ty, fc)
        n, a = shape(t)
        if n is not None:
            key = n + "<%s>" % last(a[0][1]) if n == "NotNan" else n
            out.setdefault(key, []).append((t, a))
    return out


def ref(fn, t):
    return S(Hole(fn, (t[1].kind,)))


def rs_(t):
    return ref("inline_schema", t)


def rt_(t):
    return ref("inline", t)


def commas(xs):
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(", ")
        out.append(x)
    return S(*out)


CONTAINERS = {}
for n in ("Vec", "array"):
    CONTAINERS[n] = (1, lambda a, r: S("z.array(", r(a[0]), ")"), lambda a, r: S("Array<", r(a[0]), ">"))
for n in ("HashSet", "BTreeSet"):
    CONTAINERS[n] = (1, lambda a, r: S("z.set(", r(a[0]), ")"), lambda a, r: S("Set<", r(a[0]), ">"))
for n in ("HashMap", "BTreeMap"):
    CONTAINERS[n] = (2, lambda a, r: S("z.map(", r(a[0]), ", ", r(a[1]), ")"),
                     lambda a, r: S("Map<", r(a[0]), ", ", r(a[1]), ">"))
CONTAINERS["Option"] = (1, lambda a, r: S(r(a[0]), ".optional()"), lambda a, r: S("(", r(a[0]), " | undefined)"))
CONTAINERS["Result"] = (2, lambda a, r: S("z.union([z.object({ Ok: ", r(a[0]), " }), z.object({ Err: ", r(a[1]), " })])"),
                        lambda a, r: S("({ Ok: ", r(a[0]), " } | { Err: ", r(a[1]), " })"))
for i in range(1, 31):
    CONTAINERS["tuple%d" % i] = (i, lambda a, r: S("z.tuple([", commas([r(x) for x in a]), "])"),
                                 lambda a, r: S("[", commas([r(x) for x in a]), "]"))
WRAPPERS = ["Box", "Arc", "Rc", "Cow", "Cell", "RefCell", "Mutex", "Weak", "PhantomData"]

U, I = (lambda b: (0, 2 ** b - 1)), (lambda b: (-(2 ** (b - 1)), 2 ** (b - 1) - 1))
INTS = {"u8": U(8), "u16": U(16), "u32": U(32), "u64": U(64), "u128": U(128),
        "i8": I(8), "i16": I(16), "i32": I(32), "i64": I(64), "i128": I(128)}
SIZES = {"usize": U(64), "isize": I(64)}
FLOATS = ["f32", "f64", "NotNan<f32>", "NotNan<f64>"]
STRINGS = ["String", "&str", "SmolStr"]
SCALARS = list(INTS) + list(SIZES) + FLOATS + STRINGS + ["bool", "char", "tuple0", "Ipv4Addr", "Ipv6Addr", "IpAddr"]


def only(it, fn):
    """The value of a computation that must not branch, fail or panic."""
    r = it.ctx.explore(fn)
    if len(r) != 1:
        raise Unsupported("several outcomes")
    _, kind, v = r[0]
    if kind != "ok":
        raise Mismatch("%s: %s" % (kind, v))
    return v


def view(it, t, name):
    return only(it, lambda: it.call_trait(t, "ZodType", name, []))


def text(it, t, name):
    """A view as text."""
    if name in ("schema", "inline_schema"):
        return only(it, lambda: it.m.to_s(it.call_trait(t, "ZodType", name, [])))
    return only(it, lambda: it.m.to_s(it.m.method(it.call_trait(t, "ZodType", name, []), "to_string", [], None, None)))


def runner(prog, deadline, body, it=None):
    """Runs body(it, attempt) and collects the named obligations."""
    t0, q0 = time.time(), dict(STATS)
    if it is None:
        it = Interp(prog, Ctx(deadline))
        it.trait_models["ZodType"] = zod_model
    recs = []

    def attempt(name, fn):
        r = Rec(name)
        recs.append(r)
        try:
            r.vcs += fn() or 1
        except Mismatch as m:
            r.failed.append((m.msg, m.definite, getattr(m, "model", None)))
        except (Panic, Abort) as e:
            r.failed.append(("panic: %s" % e, True, None))
        except Unsupported as e:
            r.undecided.append("unsupported: %s" % e)
        except RecursionError:
            r.undecided.append("recursion limit")
        except Exception as e:
            r.undecided.append("internal error: %r" % e)
            if os.environ.get("ZV_TRACE"):
                import traceback
                traceback.print_exc()
    body(it, attempt)
    return {"records": [r.dump() for r in recs], "used": dict(it.used), "queries": STATS["queries"] - q0["queries"],
            "solver_s": STATS["time"] - q0["time"], "wall": time.time() - t0, "paths": len(recs)}


def one_impl(found, name):
    if name not in found:
        raise Mismatch("no implementation for %s" % name, False)
    if len(found[name]) != 1:
        raise Unsupported("%d implementations for %s" % (len(found[name]), name))
    return found[name][0]


def kind_of(it, v):
    return it.m.force_enum(v).variant


# ------------------------------------------------------------------------------------- C06
def containers(prog, deadline):
    def body(it, attempt):
        T = ts.TS(it)
        found = impls(prog, it)
        for n, (ar, sch, typ) in CONTAINERS.items():
            def check(n=n, ar=ar, sch=sch, typ=typ):
                t, a = one_impl(found, n)
                if len(a) != ar:
                    raise Mismatch("%d parameters" % len(a))
                T.equal(text(it, t, "schema"), sch(a, rs_))
                T.equal(text(it, t, "inline_schema"), sch(a, rs_))
                T.equal(text(it, t, "type_def"), typ(a, rt_))
                T.equal(text(it, t, "inline"), typ(a, rt_))
                if kind_of(it, view(it, t, "type_def")) != "Type":
                    raise Mismatch("declared as an interface")
                return 5
            attempt("%s: documented constructor over the references of the parameters, in order" % n, check)
        for n in WRAPPERS:
            def check(n=n):
                t, a = one_impl(found, n)
                for v in VIEWS:
                    want = zod_model(a[0], v, None)
                    got = view(it, t, v)
                    if repr(it.deref(got)) != repr(want):
                        T.equal(text(it, t, v), it.m.to_s(it.m.method(want, "to_string", [], None, None)) if v in ("inline", "type_def") else want)
                        if v == "type_def" or v == "inline":
                            raise Unsupported("another value with the same text")
                return 4
            attempt("%s: every view is the view of the inner type" % n, check)
    return runner(prog, deadline, body)


# ------------------------------------------------------------------------------------- C04
def references(prog, deadline):
    """Built-in containers mention their parameters by reference only."""
    def body(it, attempt):
        from derive_check import hole_names
        found = impls(prog, it)
        for n in list(CONTAINERS) + WRAPPERS:
            def check(n=n):
                t, a = one_impl(found, n)
                for v, ok in (("inline_schema", ("inline_schema",)), ("inline", ("inline",)),
                              ("schema", ("inline_schema", "schema") if n in WRAPPERS else ("inline_schema",)),
                              ("type_def", ("inline", "type_def") if n in WRAPPERS else ("inline",))):
                    got = set()
                    hole_names(it, text(it, t, v), got)
                    if got - set(ok):
                        raise Mismatch("%s of %s expands a parameter: %s" % (v, n, sorted(got - set(ok))))
                return 4
            attempt("%s: mentions its parameters by reference" % n, check)
    return runner(prog, deadline, body)


# ------------------------------------------------------------------------------------- C05
def solve(f):
    s = z3.Solver()
    s.set("timeout", 20000)
    s.add(f)
    t0 = time.time()
    r = s.check()
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    return r, s


def refute(f, x, inf, what):
    r, s = solve(f)
    if r == z3.unsat:
        return
    if r != z3.sat:
        raise Unsupported("solver gave up")
    m = s.model()
    iv = m.eval(inf, True).as_long()
    xv = m.eval(x, True)
    e = Mismatch("%s: %s" % (what, xv if iv == 0 else "Infinity" if iv > 0 else "-Infinity"))
    e.model = {"value": str(xv) if iv == 0 else "Infinity" if iv > 0 else "-Infinity"}
    raise e


def scalar_spec(n, calls):
    x, inf = z3.Real("x"), z3.Int("inf")
    calls = [c for c in calls if c[0] != "describe"]
    if calls[0][0] in ("union", "intersection", "lazy", "preprocess", "custom", "coerce") or any(
            c[0] in ("or", "and", "pipe", "refine", "superRefine", "transform", "catch") for c in calls[1:]):
        raise Unsupported("combined schema: %s" % (calls,))
    if n in INTS or n in SIZES or n in FLOATS:
        acc = accept_formula(calls, x, inf)
        rng = z3.And(inf >= -1, inf <= 1)
        fin = inf == 0
        if n in FLOATS:
            refute(z3.And(rng, fin, z3.Not(acc)), x, inf, "rejects a finite value")
            return 1
        lo, hi = (INTS.get(n) or SIZES[n])
        lo, hi = z3.RealVal(str(lo)), z3.RealVal(str(hi))
        rep = z3.And(fin, z3.IsInt(x), x >= lo, x <= hi)
        # solved over the integers first (counterexamples are representable values)
        k = z3.Int("k")
        over_ints = z3.substitute(acc, (x, z3.ToReal(k)))
        refute(z3.And(fin, x == z3.ToReal(k), x >= lo, x <= hi, z3.Not(z3.substitute(acc, (inf, z3.IntVal(0))))),
               x, inf, "rejects a value of the type")
        if n in INTS:
            refute(z3.And(rng, acc, z3.Not(rep)), x, inf, "accepts a value outside the type")
            return 2
        bad = z3.Or(inf != 0, z3.Not(z3.IsInt(x)))
        if n == "usize":
            bad = z3.Or(bad, x < 0)
        refute(z3.And(rng, acc, bad), x, inf, "accepts a value outside the type")
        return 2
    want = {"bool": [("boolean", [])], "tuple0": [("null", [])]}
    if n in want:
        if calls != want[n]:
            raise Mismatch("the schema is no %s schema: %s" % (want[n][0][0], calls))
        return 1
    if calls[0] != ("string", []):
        raise Mismatch("no string schema")
    if n in STRINGS:
        if len(calls) != 1:
            raise Mismatch("restricts the strings: %s" % (calls[1:],))
        return 1
    rest = calls[1:]
    if n == "char":
        if len(rest) == 1 and rest[0][0] == "regex" and rest[0][1] and rest[0][1][0][0] == "regex":
            r = rest[0][1][0][1].replace("(", "").replace(")", "")
            body, flags = r.rsplit("/", 1)
            if body == "/^[^]$" and "u" in flags and set(flags) <= set("us"):
                return 1
            if body in ("/^.$",) and set(flags) == set("us"):
                return 1
            if body in ("/^[^]$", "/^.$"):
                raise Mismatch("the pattern %s does not accept exactly the single characters" % r)
            raise Unsupported("pattern of char: %s" % r)
        if not rest:
            raise Mismatch("accepts strings which are no single character")
        raise Unsupported("schema of char")
    if n in ("Ipv4Addr", "Ipv6Addr", "IpAddr"):
        v = {"Ipv4Addr": "v4", "Ipv6Addr": "v6", "IpAddr": None}[n]
        if len(rest) != 1 or rest[0][0] != "ip":
            raise Mismatch("no ip schema: %s" % (rest,))
        a = rest[0][1]
        got = a[0].get("version") if a and isinstance(a[0], dict) else None
        if got != v:
            raise Mismatch("accepts version %s addresses" % got)
        return 1
    raise Unsupported(n)


def accept_formula(calls, x, inf):
    try:
        return zodcalls.accepts(calls, x, inf)
    except zodcalls.Bad as e:
        raise Mismatch(str(e))


TS_KIND = {"bool": "boolean", "tuple0": "null"}


def scalars(prog, deadline):
    def body(it, attempt):
        found = impls(prog, it)
        for n in SCALARS:
            def check(n=n):
                t, _ = one_impl(found, n)
                c = text(it, t, "schema").const()
                if c is None:
                    raise Unsupported("the schema of %s is no constant" % n)
                try:
                    calls = zodcalls.parse(c)
                except zodcalls.Bad as e:
                    raise Mismatch("%s: %s" % (c, e))
                try:
                    k = scalar_spec(n, calls)
                except Mismatch as m:
                    m.model = {"type": n, "schema": c, "value": (getattr(m, "model", None) or {}).get("value")}
                    raise
                if text(it, t, "inline_schema").const() != c:
                    raise Mismatch("the inline schema is another one")
                want = TS_KIND.get(n) or ("number" if n in INTS or n in SIZES or n in FLOATS else "string")
                for v in ("type_def", "inline"):
                    if (text(it, t, v).const() or "").strip() != want:
                        raise Mismatch("type %s instead of %s" % (text(it, t, v), want))
                if kind_of(it, view(it, t, "type_def")) != "Type":
                    raise Mismatch("declared as an interface")
                return k + 3
            attempt("%s: accepts exactly its values" % n, check)
    return runner(prog, deadline, body)


# ------------------------------------------------------------------------------------- batteries
RUST = {"&str": "&'static str", "tuple0": "()", "Ipv4Addr": "std::net::Ipv4Addr", "Ipv6Addr": "std::net::Ipv6Addr",
        "IpAddr": "std::net::IpAddr"}
REAL = [n for n in SCALARS if n not in ("SmolStr", "NotNan<f32>", "NotNan<f64>")]

NODE = r"""
const { createRequire } = require('module');
const req = createRequire('/opt/veriftools/node/node_modules/');
const { z } = req('zod/v3');
const jobs = JSON.parse(require('fs').readFileSync(0, 'utf8'));
const dec = (v) => (v && typeof v === 'object' && 'num' in v) ? Number(v.num) : v;
for (const j of jobs) {
  let s, err = null;
  try { s = eval('(' + j.schema + ')'); } catch (e) { err = String(e); }
  let r = [];
  if (err === null) for (const v of j.values) {
    try { r.push(s.safeParse(dec(v)).success); } catch (e) { r.push('throws: ' + e); }
  }
  console.log(JSON.stringify({ name: j.name, err, r }));
}
"""


def node(jobs):
    p = subprocess.run(["node", "-e", NODE], input=json.dumps(jobs), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       text=True, timeout=120)
    if p.returncode != 0:
        raise RuntimeError("node: " + p.stderr[-300:])
    return [json.loads(l) for l in p.stdout.splitlines()]


def reports(types, name="builtins"):
    """{label: views} printed by the real crate for Rust types given as {label: rust text}."""
    main = [harness.PRELUDE, "fn main() {", "    std::panic::set_hook(Box::new(|_| {}));"]
    for k, t in types.items():
        main.append("    report::<%s>(%s);" % (t, concrete.rs(k)))
    main.append("}")
    d = harness.project(name, {"main.rs": "\n".join(main) + "\n"})
    exe = harness.cargo_build(d, name)
    p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    out = {}
    for line in p.stdout.decode().splitlines():
        j = json.loads(line)
        out[j["name"]] = j
    return out


def num_values(n):
    lo, hi = INTS.get(n) or SIZES.get(n) or (-(2 ** 40), 2 ** 40)
    vs = [0, 1, -1, 2, 0.5, -0.5, 1e-9, 254.5, 1e15, -1e15, float("inf"), float("-inf")]
    for b in (lo, hi):
        for d in (-2, -1, -0.5, 0, 0.5, 1, 2):
            v = b + d
            vs.append(float(v) if abs(v) >= 2 ** 53 else v)
    for k in (7, 8, 15, 16, 31, 32, 33, 52):
        vs += [2 ** k, 2 ** k - 1, -(2 ** k), -(2 ** k) - 1]
    out = []
    for v in vs:
        f = float(v)
        # values that only rounding puts outside (limits beyond 2^53 are read exactly here, rounded by JS)
        if f == f and abs(f) != float("inf") and abs(f) > 2 ** 53 and any(f == float(b) and int(f) != b for b in (lo, hi)):
            continue
        out.append(f)
    return sorted(set(out))


def num_ok(n, v):
    """True/False, or None when the property leaves it open."""
    if n in FLOATS:
        return True if abs(v) != float("inf") else None
    if abs(v) == float("inf") or v != int(v):
        return False
    lo, hi = INTS.get(n) or SIZES.get(n)
    if n in SIZES and not lo <= v <= hi:
        return False if n == "usize" and v < 0 else None
    return lo <= v <= hi


OTHER_VALUES = [True, False, None, "", "a", "ab", "\n", "\U0001F600", "\U0001F600a", "7", "1.2.3.4", "::1",
                "300.1.1.1", "2001:db8::8a2e:370:7334", {"num": "1"}, {"num": "0.5"}, [], {}]


def other_ok(n, v):
    if isinstance(v, dict) and "num" in v:
        return n in FLOATS or (n in INTS or n in SIZES) and v["num"] == "1"
    if n == "bool":
        return isinstance(v, bool)
    if n == "tuple0":
        return v is None
    if n in INTS or n in SIZES or n in FLOATS:
        return False
    if not isinstance(v, str):
        return False
    if n == "char":
        return len(v) == 1
    v4, v6 = v == "1.2.3.4", v in ("::1", "2001:db8::8a2e:370:7334")
    return {"Ipv4Addr": v4, "Ipv6Addr": v6, "IpAddr": v4 or v6}.get(n, True)


def scalar_battery(seed, tier):
    got = reports({n: RUST.get(n, n) for n in REAL})
    jobs, exp, fails = [], [], []
    for n in REAL:
        g = got.get(n)
        if g is None or g.get("panic"):
            fails.append({"what": "no schema", "input": n, "expected": "a schema", "actual": "panic"})
            continue
        want = TS_KIND.get(n) or ("number" if n in INTS or n in SIZES or n in FLOATS else "string")
        if g["type"].strip() != want or g["inline"].strip() != want:
            fails.append({"what": "TypeScript type", "input": n, "expected": want, "actual": g["type"]})
        nums = num_values(n) if n in INTS or n in SIZES or n in FLOATS else [0.0, 1.0]
        vs = [{"num": repr(v).replace("inf", "Infinity")} for v in nums]
        ok = [num_ok(n, v) if n in INTS or n in SIZES or n in FLOATS else False for v in nums]
        vs += OTHER_VALUES
        ok += [other_ok(n, v) for v in OTHER_VALUES]
        for k in ("schema", "inline_schema"):
            jobs.append({"name": n, "schema": g[k], "values": vs})
            exp.append(ok)
    cases = 0
    for j, ok, r in zip(jobs, exp, node(jobs)):
        if r["err"]:
            fails.append({"what": "the schema is no zod expression", "input": j["name"], "expected": "a schema",
                          "actual": "%s: %s" % (j["schema"], r["err"])})
            continue
        for v, e, a in zip(j["values"], ok, r["r"]):
            cases += 1
            if e is not None and a is not e:
                fails.append({"what": "scalar value", "input": "%s: %s" % (j["name"], json.dumps(v)),
                              "expected": "accepted" if e else "rejected", "actual": "%s: %s" % (j["schema"], a)})
    return {"cases": cases, "bound": "boundary and kind values on zod v3 in node", "failures": fails}


def replay_scalars(refuted, log):
    jobs, fails = [], []
    got = reports({n: RUST.get(n, n) for n in REAL}, "builtins")
    for r in refuted:
        for m in r.get("models", []):
            v = m.get("value")
            if not v or m["type"] not in got:
                continue
            try:
                f = float(v) if "inf" in v.lower() else float(z3.RealVal(v).as_fraction()) if not "/" in v else None
                if f is None:
                    a, b = v.split("/")
                    f = int(a) / int(b)
            except Exception:
                continue
            n = m["type"]
            e = num_ok(n, f)
            x = node([{"name": n, "schema": got[n]["schema"], "values": [{"num": repr(f).replace("inf", "Infinity")}]}])[0]
            log.append("%s value %s: %s" % (n, v, x))
            if e is not None and not x["err"] and x["r"][0] is not e:
                fails.append({"what": "scalar value", "input": "%s: %s" % (n, v), "expected": "accepted" if e else "rejected",
                              "actual": got[n]["schema"]})
    return fails


# concrete nestings: (rust text, views) from the same table
class CT:
    def __init__(self, rust, name, args=()):
        self.rust, self.name, self.args = rust, name, args


LEAVES = [CT("Other", "leaf"), CT("Renamed", "leaf"), CT("Wrapped", "leaf"), CT("u8", "leaf"), CT("String", "leaf"), CT("f64", "leaf")]
RNAME = {"Vec": "Vec<%s>", "HashSet": "std::collections::HashSet<%s>", "BTreeSet": "std::collections::BTreeSet<%s>",
         "HashMap": "std::collections::HashMap<%s, %s>", "BTreeMap": "std::collections::BTreeMap<%s, %s>",
         "Option": "Option<%s>", "Result": "Result<%s, %s>", "array": "[%s; 3]", "Box": "Box<%s>",
         "Arc": "std::sync::Arc<%s>", "Rc": "std::rc::Rc<%s>", "Cell": "std::cell::Cell<%s>",
         "RefCell": "std::cell::RefCell<%s>", "Mutex": "std::sync::Mutex<%s>", "Weak": "std::sync::Weak<%s>",
         "PhantomData": "std::marker::PhantomData<%s>", "Cow": "std::borrow::Cow<'static, %s>"}


def build(name, args):
    if name.startswith("tuple"):
        return CT("(%s,)" % ", ".join(a.rust for a in args), name, args)
    return CT(RNAME[name] % tuple(a.rust for a in args), name, args)


def expect(c, leaves):
    """{view: text} of a concrete type."""
    if c.name == "leaf":
        g = leaves[c.rust]
        return {"schema": g["schema"], "inline_schema": g["inline_schema"], "type": g["type"], "inline": g["inline"]}
    subs = [expect(a, leaves) for a in c.args]
    if c.name in WRAPPERS:
        return subs[0]
    _, sch, typ = CONTAINERS[c.name]
    s = sch(list(range(len(subs))), lambda i: S(subs[i]["inline_schema"])).const()
    t = typ(list(range(len(subs))), lambda i: S(subs[i]["inline"])).const()
    return {"schema": s, "inline_schema": s, "type": t, "inline": t}


def nestings(seed, tier):
    import random
    r = random.Random(seed)
    names = [n for n in CONTAINERS if not n.startswith("tuple")] + WRAPPERS
    ar = lambda n: CONTAINERS[n][0] if n in CONTAINERS else 1
    out = []
    for i, n in enumerate(names):
        if n == "Cow":
            out += [build(n, [LEAVES[3]]), build(n, [LEAVES[4]])]
            continue
        out.append(build(n, [LEAVES[(i + k) % len(LEAVES)] for k in range(ar(n))]))
        out.append(build(n, [LEAVES[(k) % 2] for k in range(ar(n))]))
    for i in range(1, 31):
        out.append(build("tuple%d" % i, [LEAVES[k % len(LEAVES)] for k in range(i)]))
    cowable = ("Cow",)

    def rnd(d):
        if d == 0 or r.random() < 0.15:
            return r.choice(LEAVES)
        n = r.choice([x for x in names if x not in cowable] + ["tuple1", "tuple2", "tuple3", "tuple5"])
        k = ar(n)
        return build(n, [rnd(d - 1) for _ in range(k)])
    for _ in range(150 if tier == "quick" else 500):
        out.append(rnd(r.choice((2, 3, 3, 4))))
    for n in names:
        if n != "Cow":
            for m in names:
                if m != "Cow":
                    out.append(build(n, [build(m, [LEAVES[j % 3] for j in range(ar(m))]) for _ in range(ar(n))]))
    return out


def nesting_battery(wanted):
    def run(seed, tier):
        cs = nestings(seed, tier)
        types = {l.rust: l.rust for l in LEAVES}
        for i, c in enumerate(cs):
            types["t%d" % i] = c.rust
        got = reports(types, "nestings")
        fails = []
        for i, c in enumerate(cs):
            g = got.get("t%d" % i)
            if g is None or g.get("panic"):
                fails.append({"what": "no schema", "input": c.rust, "expected": "a schema", "actual": "panic"})
                continue
            e = expect(c, got)
            for v in wanted:
                if not concrete.same_ts(e[v], g[v]):
                    fails.append({"what": v, "input": c.rust, "expected": e[v], "actual": g[v]})
            if g["kind"] != "type" and c.name in CONTAINERS:
                fails.append({"what": "declared as an interface", "input": c.rust, "expected": "type", "actual": g["kind"]})
        return {"cases": len(cs), "bound": "every constructor, tuple arity and pair of constructors, random nestings of depth 4",
                "failures": fails[:50]}
    return run


ASSUME = ["contracts of std String/slice/Vec/Iterator/fmt methods (zv/std_models.py)",
          "the views of a type parameter are opaque (an arbitrary ZodType implementation)"]
ASSUME5 = ["zod's number checks mean what zod documents: int, finite, (non)negative, (non)positive, gte/gt/lte/lt are "
           "conjunctions over the real value (sampled against zod v3 in node by the battery)",
           "number literals in the schema are read exactly (JavaScript rounds limits beyond 2^53 to doubles)"]


def c05():
    return Check("C05", [Task("scalars", scalars)], [Battery("scalars on zod v3", scalar_battery)], replay_scalars,
                 ASSUME + ASSUME5)


def c06():
    return Check("C06", [Task("containers", containers)],
                 [Battery("nestings", nesting_battery(("schema", "inline_schema", "type", "inline")))], None, ASSUME)


# ------------------------------------------------------------------------------------- C04 battery
RECURSIVE = '''
#[derive(serde::Deserialize, zod::Zod)] #[zod(namespace = "Ns")]
pub struct Node { children: Vec<Node>, next: Option<Box<Node>>, other: (u8, Box<Mate>, Vec<(Node, Enu)>),
  arc: std::cell::RefCell<Tup>, map: std::collections::HashMap<String, Vec<Node>>, res: Result<Box<Node>, Vec<Enu>> }
#[derive(serde::Deserialize, zod::Zod)] #[zod(namespace = "Ns")]
pub struct Mate { back: Option<Box<Node>>, me: std::cell::RefCell<Vec<Mate>> }
#[derive(serde::Deserialize, zod::Zod)] #[zod(namespace = "Ns")]
pub struct Tup(Vec<Tup>, Box<Enu>);
#[derive(serde::Deserialize, zod::Zod)] #[zod(namespace = "Ns")]
pub enum Enu { A(Box<Enu>), B { x: Vec<Node>, y: Box<[Enu; 2]> }, C, D(Vec<Tup>, Box<Mate>) }
'''


def recursion_battery(seed, tier):
    """Recursive and mutually recursive declarations: references, termination."""
    def program(names):
        src = RECURSIVE
        for k, v in zip(("Node", "Mate", "Tup", "Enu"), names):
            for kw in ("struct", "enum"):
                if v != k:
                    src = src.replace("pub %s %s " % (kw, k), "#[serde(rename = \"%s\")] pub %s %s " % (v, kw, k))
                    src = src.replace("pub %s %s(" % (kw, k), "#[serde(rename = \"%s\")] pub %s %s(" % (v, kw, k))
        return src
    ns = "Ns"
    fails, cases = [], 0
    for i, names in enumerate((("Node", "Mate", "Tup", "Enu"), ("Knoten", "Other2", "T", "Enu"))):
        src = program(names)
        main = harness.PRELUDE + src.strip() + "\nfn main() {\n    std::panic::set_hook(Box::new(|_| {}));\n"
        for k in ("Node", "Mate", "Tup", "Enu"):
            main += "    report::<%s>(\"%s\");\n" % (k, k)
            main += "    report::<Vec<Option<Box<(%s, %s)>>>>(\"in %s\");\n" % (k, k, k)
        main += "}\n"
        nm = "recursion%d" % i
        d = harness.project(nm, {"main.rs": main})
        exe = harness.cargo_build(d, nm)
        try:
            p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
            text = p.stdout.decode()
        except subprocess.TimeoutExpired:
            text = ""
        got = {}
        for line in text.splitlines():
            j = json.loads(line)
            got[j["name"]] = j
        q = dict(zip(("Node", "Mate", "Tup", "Enu"), names))
        for k in ("Node", "Mate", "Tup", "Enu"):
            cases += 2
            g, h = got.get(k), got.get("in " + k)
            inp = "recursive declarations, " + q[k]
            if g is None or h is None or g.get("panic") or h.get("panic"):
                fails.append({"what": "producing the schema or type of a recursive declaration does not terminate",
                              "input": inp, "expected": "a schema", "actual": "no result"})
                continue
            name = "%s.%s" % (ns, q[k])
            lazy = "z.lazy(() => %s)" % name
            want = [("inline", g["inline"], name), ("inline_schema", g["inline_schema"], lazy),
                    ("nested schema", h["schema"], "z.array(z.tuple([%s, %s]).optional())" % (lazy, lazy)),
                    ("nested type", h["type"], "Array<([%s, %s] | undefined)>" % (name, name))]
            for w, a, e in want:
                if not concrete.same_ts(e, a):
                    fails.append({"what": w, "input": inp, "expected": e, "actual": a})
            allowed = {"%s.%s" % (ns, v) for v in names}
            for r in re.findall(r"\bNs\.\w+", g["schema"] + " " + g["type"]):
                if r not in allowed:
                    fails.append({"what": "reference to a name nothing is exported under", "input": inp,
                                  "expected": sorted(allowed), "actual": r})
            if g["schema"].count("children") > (1 if k == "Node" else 0):
                fails.append({"what": "expanded instead of referenced", "input": inp, "expected": "a reference",
                              "actual": g["schema"]})
    return {"cases": cases, "bound": "two families of mutually recursive declarations through containers and tuples",
            "failures": fails}
