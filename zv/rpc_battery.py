"""Batteries on the real backend code: the program battery/rpc/main.rs driven with scripts, compared with
what the properties say should happen (bounded)."""
import json
import os
import random
import re
import subprocess
import harness

TOKEN = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|("(?:[^"\\\n]|\\.)*"|\'(?:[^\'\\\n]|\\.)*\'|[\w$]+(?:\.\d+)?|=>|\.\.\.|.)', re.S)


def tokens_ts(text):
    out = []
    for m in TOKEN.finditer(text):
        t = m.group(1)
        if t is None:
            continue
        if t[0] in "\"'" and len(t) > 1:
            try:
                t = json.dumps(json.loads(t if t[0] == '"' else '"' + t[1:-1].replace('"', '\\"') + '"'))
            except ValueError:
                pass
        out.append(t)
    return out

HERE = os.path.join(harness.ROOT, "battery", "rpc")

# namespace (Rust name): exported name, methods (name, kind, [(argument, type)], result)
NS = {
    "Alpha": ("Alpha", [
        ("m0", "method", [], "u32"), ("m1", "method", [("a", "u32")], "u32"),
        ("m2", "method", [("b", "String"), ("a", "u32")], "String"),
        ("m3", "method", [("a", "u8"), ("b", "u8"), ("c", "u8")], "(u8, u8, u8)"),
        ("m5", "method", [(x, "i32") for x in "edcba"], "Vec<i32>"),
        ("unit", "method", [("x", "bool")], "()"), ("unit2", "method", [], "()"),
        ("opt", "method", [("x", "Option<u32>")], "Option<u32>"),
        ("res", "method", [("x", "u8")], "Result<String, u8>"),
        ("bad", "method", [("value", "u32")], "Bad"),
        ("nested", "method", [("v", "Vec<(u8, String)>"), ("t", "(bool,)")], "Vec<(u8, String)>"),
        ("slow", "method", [("turns", "u32")], "u32"), ("wait", "method", [("gate", "u32")], "u32"),
        ("iter", "stream", [("from", "u32"), ("to", "u32")], "u32"),
        ("tap", "stream", [("key", "u32")], "u32"), ("tapc", "stream", [("key", "u32")], "u32"),
        ("badtap", "stream", [("key", "u32")], "Bad"),
        ("strings", "stream", [("in", "String"), ("n", "u8"), ("pad", "Option<String>")], "String"),
        ("echo", "method", [("x", "String")], "String"), ("flag", "method", [("x", "bool")], "bool"),
        ("opts", "stream", [("n", "u8")], "Option<Vec<u8>>"), ("closed", "stream", [], "u32")]),
    "Beta": ("Gamma", [
        ("m1", "method", [("a", "u32")], "u32"), ("get", "method", [], "BetaItem"),
        ("only_beta", "method", [("item", "BetaItem")], "u8"), ("tap", "stream", [("key", "u32")], "u32")]),
    "Gamma": ("Beta", [("m1", "method", [("a", "u32")], "u32"), ("get", "method", [], "u32")]),
    "Raw": ("aRaw", [
        ("type", "method", [("match", "u32"), ("fn", "String")], "String"), ("get_all", "method", [], "u32"),
        ("get", "method", [], "u32"), ("getAll", "method", [], "u32"), ("loop", "stream", [("use", "u32")], "u32"),
        ("method", "method", [("method", "String"), ("namespace", "u8")], "u8"),
        ("id", "method", [("id", "u8"), ("args", "u8"), ("sender", "u8"), ("ctx", "u8"), ("res", "u8")], "Vec<u8>")]),
    "Types": ("Types", []),
    "Empty": ("Empty", []),
    "Calls": ("Calls", [("ping", "method", [], "String")]),
    "OTHER": ("OTHER", []),
    "Other": ("Other", [("m1", "method", [("a", "u32")], "u32")]),
    "AlphaTypes": ("AlphaTypes", []),
}
# exported names in each namespace (Rust name)
MEMBERS = {"NamesM": [], "NamesS": [], "Alpha": ["Bad"], "Beta": ["BetaItem"], "Gamma": [], "Raw": [], "Types": ["Renamed", "Second", "Third", "Fourth"],
           "Empty": [], "Calls": [], "Other": ["OtherItem"], "OTHER": ["Item"], "AlphaTypes": ["OtherItem2", "Bad"]}
BACKENDS = {"Main": ["Types", "Raw", "Alpha", "Gamma", "Empty", "Beta", "Calls"], "Pair": ["Other", "AlphaTypes", "Alpha"], "One": ["Beta"], "Names": ["NamesM", "NamesS"]}
# names a TypeScript function or parameter cannot have, or which the emitted functions use themselves
RESERVED = set("""arguments await break case catch class const continue debugger default delete do else enum eval export extends
false finally for function if implements import in instanceof interface let new null package private protected public request
return static subscribe super switch this throw true try typeof var void while with yield z""".split())

# methods and streams whose names and arguments are, or nearly are, reserved
NAMES = sorted(RESERVED - {"super"}) + ["_delete", "_eval", "__z", "request1", "Class", "z0", "zz", "subscribe2", "async", "of", "get", "set",
                                        "type", "as", "constructor", "toString", "then", "any", "number", "is", "r", "x_", "requests"]
NS["NamesM"] = ("NamesM", [(n, "method", [(n, "u8")], "u8") for n in NAMES])
NS["NamesS"] = ("NamesS", [(n, "stream", [(n, "u8")], "u8") for n in NAMES])
EXPORTED = {v[0]: k for k, v in NS.items()}


def declared(name):
    return name + "_" if name in RESERVED else name


def names_rs():
    raw = lambda n: n if n.startswith("_") else "r#" + n
    m = ["async fn %s(&mut self, %s: u8) -> u8 { 1 }" % (raw(n), raw(n)) for n in NAMES]
    t = ["fn %s(&mut self, %s: u8) -> futures::stream::Empty<u8> { futures::stream::empty() }" % (raw(n), raw(n)) for n in NAMES]
    return """//! Reserved and similar names.
#![allow(non_snake_case, unused)]
use zod::*;
#[derive(Namespace)]
pub struct NamesM;
#[zod::rpc::namespace]
impl NamesM {
    %s
}
#[derive(Namespace)]
pub struct NamesS;
#[zod::rpc::namespace]
impl NamesS {
    %s
}
#[derive(zod::rpc::Backend)]
pub struct Names {
    m: NamesM,
    s: NamesS,
}
""" % ("\n    ".join(m), "\n    ".join(t))


def build(files=None, name="rpcbat"):
    d = harness.project(name, files or dict({f: open(os.path.join(HERE, f)).read() for f in ("main.rs", "api.rs")}, **{"names.rs": names_rs()}))
    return harness.cargo_build(d, name)


def rejected(e):
    """The errors in the program under test itself, which uses nothing but the public macros."""
    return [m for tgt, spans, m in e.errors if any(fn.endswith(("api.rs", "names.rs")) for fn, _ in spans)]


def views(exe):
    p = subprocess.run([exe, "views"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    if p.returncode != 0:
        return None, p.stderr.decode("utf8", "replace")[-600:]
    v = {"ty": {}, "member": [], "rpc": [], "ns": {}, "backend": {}, "collected": None, "response": {}}
    for line in p.stdout.decode().split("\n")[:-1]:
        j = json.loads(line)
        if "ty" in j:
            v["ty"][j["ty"]] = j
        elif "member" in j:
            v["member"].append(j)
        elif "rpc" in j:
            v["rpc"].append(j)
        elif "namespace" in j:
            v["ns"][j["namespace"]] = j
        elif "backend" in j:
            v["backend"][j["backend"]] = j
        elif "response" in j:
            v["response"][j["response"]] = j
        elif "collected" in j:
            v["collected"] = j["collected"]
    return v, None


def client_js(jobs):
    p = subprocess.run(["node", os.path.join(HERE, "client.mjs")], input=json.dumps(jobs).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if p.returncode != 0:
        raise RuntimeError("node: " + p.stderr.decode("utf8", "replace")[:500])
    return json.loads(p.stdout.decode())


def toks(s):
    return " ".join(tokens_ts(s))


class Report:
    def __init__(self):
        self.cases = 0
        self.failures = []
        self.samples = []

    def check(self, ok, what, inp, expected, actual):
        self.cases += 1
        if len(self.samples) < 3 and inp and inp not in self.samples:
            self.samples.append(inp)
        if not ok and len(self.failures) < 40:
            self.failures.append({"what": what, "input": inp, "expected": expected, "actual": actual})

    def done(self, bound, **kw):
        return dict({"cases": self.cases, "failures": self.failures, "bound": bound, "samples": [str(x)[:400] for x in self.samples]}, **kw)


def build_or_fail(r):
    try:
        return build()
    except harness.BuildError as e:
        if not rejected(e):
            raise
        r.check(False, "namespaces and backends which must be accepted do not compile", "battery/rpc/api.rs", "compiles", rejected(e)[:4])
        return None


def views_or_fail(r):
    exe = build_or_fail(r)
    if exe is None:
        return None, None
    v, err = views(exe)
    if v is None:
        r.check(False, "the program listing the registered items crashes", "battery/rpc/main.rs", "a listing", err)
    return exe, v


def struct_of(v, texts):
    return [x.get("structure") for x in client_js([{"structure": t} for t in texts])]


def client_text(b):
    return b["client"][len("<<client>>"):]


def docs_of_items(r, blk):
    """The comments of the items of a block."""
    for it in blk["items"]:
        doc = {("Types", "Renamed"): "Documented\ntype", ("Alpha", "Bad"): "A value which cannot be serialized from 100 on.",
               ("AlphaTypes", "OtherItem2"): "Same name as in another namespace."}.get((blk["ns"], it.get("name")))
        if it["kind"] == "function":
            continue
        ds = it.get("docs") or []
        if doc is None:
            r.check(not ds, "docs where there are none", "%s.%s" % (blk["ns"], it.get("name")), [], ds)
        else:
            lines = [re.sub(r"^\s*\*?\s*", "", l).strip() for l in ds[-1][2:-2].split("\n")] if ds else []
            r.check([l for l in lines if l.strip("* ")] == doc.split("\n") and len(ds) == 1, "docs of the item",
                    "%s %s.%s" % (it["kind"], blk["ns"], it.get("name")), doc, ds)


def client_docs_battery(seed, tier):
    r = Report()
    exe, v = views_or_fail(Report())
    if v is None:
        return r.done("-")          # no client to look at: not a matter of its comments
    names = [b for b in BACKENDS if v["backend"][b]["client"].startswith("<<client>>")]
    for s in struct_of(v, [client_text(v["backend"][b]) for b in names]):
        if s and not s["diags"]:
            for blk in s["blocks"]:
                docs_of_items(r, blk)
    return r.done("the items of the clients of battery/rpc/main.rs")


# ---------------------------------------------------------------- C07
def client_battery(seed, tier):
    r = Report()
    exe, v = views_or_fail(r)
    if v is None:
        return r.done("-")
    names = list(BACKENDS)
    st = dict(zip(names, struct_of(v, [client_text(v["backend"][b]) if v["backend"][b]["client"].startswith("<<client>>")
                                       else "" for b in names])))
    ts_prelude = open(os.path.join(harness.REPO, "src/rpc/clients/static/websocket_client.ts")).read()
    for b, nss in BACKENDS.items():
        x = v["backend"][b]
        r.check(x["client"].startswith("<<client>>"), "the generated client does not start with the client prelude", b, "<<client>>…", x["client"][:80])
        r.check(x["client"] == x["client2"], "generate and generate_with_options(default) differ", b, x["client"][:300], x["client2"][:300])
        r.check(x["ws_client"] == ts_prelude + client_text(x), "the websocket client is not its prelude followed by the blocks", b, "prelude + blocks", x["ws_client"][:100])
        s = st[b]
        r.check(s and not s["diags"], "the generated client does not parse", b, "TypeScript", s and s["diags"][:3])
        if not s or s["diags"]:
            continue
        want = {}
        for n in nss:
            if NS[n][1] or MEMBERS[n]:
                want[NS[n][0]] = n
        got = [k.get("ns") for k in s["blocks"]]
        r.check(sorted(map(str, got)) == sorted(want), "namespace blocks of backend " + b, b, sorted(want), got)
        for blk in s["blocks"]:
            n = want.get(blk.get("ns"))
            if n is None:
                continue
            r.check(blk["exported"], "the block is not exported", blk["ns"], True, False)
            expect = []
            for m in v["member"]:
                if m["ns"] == blk["ns"]:
                    if m["member"] not in MEMBERS[n]:
                        continue
                    kind = "interface" if m["interface"] else "type"
                    expect.append(["const", m["member"], toks(m["schema"])])
                    expect.append([kind, m["member"], toks(m["type"])])
            for (f, kind, args, res) in NS[n][1]:
                expect.append(["function", declared(f), kind])
            have = []
            for it in blk["items"]:
                if it["kind"] == "function":
                    have.append(["function", it["name"], "method" if it["async"] else "stream"])
                else:
                    have.append([it["kind"], it.get("name"), toks(it["text"])])
                r.check(it.get("exported", False), "an item is not exported", "%s.%s" % (blk["ns"], it.get("name")), True, it)
            r.check(sorted(map(repr, have)) == sorted(map(repr, expect)),
                    "contents of the block of namespace %s in backend %s" % (blk["ns"], b), "battery/rpc/main.rs",
                    [e for e in expect if e not in have][:4] or sorted(map(repr, expect))[:40],
                    [e for e in have if e not in expect][:4] or sorted(map(repr, have))[:40])
            docs_of_items(r, blk)
    return r.done("the %d namespaces, %d types and %d methods of battery/rpc/main.rs in three backends" % (
        len(NS), sum(map(len, MEMBERS.values())), sum(len(x[1]) for x in NS.values())))


# ---------------------------------------------------------------- C08
VALID = {
    "u32": [0, 4294967295], "u8": [0, 255], "i32": [-5, 2147483647], "bool": [True, False], "String": ["", "a\"b"],
    "Option<u32>": [5], "Option<String>": ["x"], "Vec<(u8, String)>": [[], [[1, "a"], [2, "b"]]], "(bool,)": [[True]],
    "BetaItem": [{"z_last": 3, "a_first": "q"}]}
INVALID = {
    "u32": [-1, 1.5, "1", None], "u8": [256, "x"], "i32": [2147483648, 0.5], "bool": [0, "true"], "String": [1, None],
    "Option<u32>": ["x", -1], "Option<String>": [5], "Vec<(u8, String)>": [[[1]], [["a", 1]], {}], "(bool,)": [[1], [True, True], True],
    "BetaItem": [{"z_last": 3}, {"z_last": "3", "a_first": "q"}, 5]}


def functions_battery(seed, tier):
    r = Report()
    exe, v = views_or_fail(r)
    if v is None:
        return r.done("-")
    jobs, exp = [], []
    for b, nss in BACKENDS.items():
        calls = []
        for n in nss:
            for (f, kind, args, res) in NS[n][1]:
                vals = [VALID[t][i % len(VALID[t])] for i, (_, t) in enumerate(args)]
                calls.append((n, f, kind, vals, True))
                vals2 = [VALID[t][-1] for _, t in args]
                calls.append((n, f, kind, vals2, True))
                for i, (_, t) in enumerate(args):
                    for bad in INVALID[t]:
                        calls.append((n, f, kind, vals[:i] + [bad] + vals[i + 1:], False))
                if args:
                    calls.append((n, f, kind, vals[:-1], False))
                calls.append((n, f, kind, vals + [1], False))
                if len(args) > 1 and args[0][1] != args[1][1]:
                    calls.append((n, f, kind, [vals[1], vals[0]] + vals[2:], False))
        jobs.append({"structure": client_text(v["backend"][b]), "client": client_text(v["backend"][b]),
                     "calls": [{"ns": NS[c[0]][0], "fn": declared(c[1]), "args": c[3]} for c in calls]})
        exp.append((b, nss, calls))
    for (b, nss, calls), out in zip(exp, client_js(jobs)):
        if "error" in out:
            r.check(False, "the generated client cannot be run", b, "runs", out["error"])
            continue
        for c, got in zip(calls, out["calls"]):
            n, f, kind, vals, ok = c
            inp = "%s.%s(%s)" % (NS[n][0], f, json.dumps(vals)[1:-1])
            want = [["request" if kind == "method" else "subscribe", NS[n][0], f, vals]] if ok else []
            r.check(got["sent"] == want, "a call of a generated function", inp, want if ok else "rejected before sending", got)
            if ok:
                r.check(got["threw"] is None and got["value"] == ("promise" if kind == "method" else "store"), "the value of a call", inp, kind, got)
            else:
                r.check(got["threw"] == "ZodError", "an invalid call is not rejected by the schema", inp, "ZodError", got)
        for blk in out["structure"]["blocks"]:
            n = EXPORTED.get(blk.get("ns"))
            fs = {x["name"]: x for x in blk.get("items", []) if x["kind"] == "function"}
            for (f, kind, args, res) in NS.get(n, ("", []))[1]:
                x = fs.get(declared(f))
                inp = "%s.%s" % (blk["ns"], f)
                if x is None:
                    r.check(False, "no function of that name", inp, declared(f), sorted(fs))
                    continue
                want = [[declared(a), toks(v["ty"][t]["inline"]), False] for a, t in args]
                have = [[p[0], toks(p[1] or ""), p[2]] for p in x["params"]]
                expanded = [[declared(a), toks(v["ty"][t]["type_def"]), False] for a, t in args]
                r.check(len(have) == len(want) and all(h in (x1, x2) for h, x1, x2 in zip(have, want, expanded)), "parameters of a generated function", inp, want, have)
                w = ("Promise < %s >" if kind == "method" else "Store < %s >") % toks(v["ty"][res]["type_def"])
                w2 = ("Promise < %s >" if kind == "method" else "Store < %s >") % toks(v["ty"][res]["inline"])
                r.check(toks(x["ret"] or "") in (toks(w), toks(w2)) and x["async"] == (kind == "method"), "result of a generated function", inp, w,
                        ["async" if x["async"] else "", x["ret"]])
    return r.done("every method of battery/rpc/main.rs with valid and invalid arguments, run in node with zod v3")


def references_battery(seed, tier):
    """C04: arguments of derived types are mentioned by their exported names."""
    r = Report()
    exe, v = views_or_fail(Report())
    if v is None:
        return r.done("-")
    for b, nss in BACKENDS.items():
        code = client_text(v["backend"][b])
        for s in struct_of(v, [code]):
            for blk in (s or {}).get("blocks", []):
                for x in blk.get("items", []):
                    if x["kind"] != "function" or (blk["ns"], x["name"]) != ("Gamma", "only_beta"):
                        continue
                    inp = "%s.%s(item: BetaItem)" % (blk["ns"], x["name"])
                    r.check([toks(p[1] or "") for p in x["params"]] == [toks("Gamma.BetaItem")], "the type of an argument", inp, "Gamma.BetaItem", x["params"])
                    m = re.search(r"function only_beta\b(.*?)(\bexport\b|$)", code, re.S)
                    body = re.sub(r"\s", "", m.group(1) if m else "").partition("{")[2]
                    r.check("z_last" not in body and not re.search(r"(?<!=>)Gamma\.BetaItem", body), "the schema of an argument", inp,
                            "z.lazy(() => Gamma.BetaItem)", body)
    return r.done("the function of battery/rpc/main.rs with an argument of a derived type")


# ---------------------------------------------------------------- C09
BAD_METHODS = {
    "by_ref": "async fn m(&self) -> u8 { 1 }", "by_val": "async fn m(self) -> u8 { 1 }", "by_mut": "async fn m(mut self) -> u8 { 1 }",
    "no_self": "async fn m(a: u8) -> u8 { a }", "nothing": "async fn m() -> u8 { 1 }", "lifetime": "async fn m<'a>(&'a mut self) -> u8 { 1 }",
    "no_output": "fn m(&mut self) {}", "no_output_arg": "fn m(&mut self, a: u8) {}",
    "async_stream": "async fn m(&mut self) -> impl futures::Stream<Item = u8> { futures::stream::iter(0..2) }",
    "pattern": "async fn m(&mut self, (a, b): (u8, u8)) -> u8 { a + b }", "wild": "async fn m(&mut self, _: u8) -> u8 { 1 }",
    "stream_ref": "fn m(&self) -> impl futures::Stream<Item = u8> { futures::stream::iter(0..2) }",
    "stream_pattern": "fn m(&mut self, a: u8, [b, c]: [u8; 2]) -> impl futures::Stream<Item = u8> { futures::stream::iter(0..2) }",
    "stream_no_self": "fn m(a: u8) -> impl futures::Stream<Item = u8> { futures::stream::iter(0..2) }",
    "typed_self": "async fn m(a: u8, b: &mut u8) -> u8 { a }",
    "stream_lifetime": "fn m<'a>(&'a mut self, a: u8) -> futures::stream::Empty<u8> { futures::stream::empty() }",
    "second": "async fn ok(&mut self) -> u8 { 1 } async fn m(&self) -> u8 { 1 }",
}
GOOD_METHODS = {
    "mut_arg": "async fn m(&mut self, mut a: u8) -> u8 { a += 1; a }",
    "concrete": "fn m(&mut self) -> futures::stream::Empty<u8> { futures::stream::empty() }",
    "boxed": "fn m(&mut self, a: u8) -> std::pin::Pin<Box<dyn futures::Stream<Item = u8> + Send>> { Box::pin(futures::stream::iter(0..a)) }",
    "public": "pub async fn m(&mut self) {}", "documented": "/// docs\n    #[allow(unused)]\n    async fn m(&mut self) -> () {}",
    "attributes": "#[cfg(all())] #[inline] #[doc(hidden)] async fn m(#[allow(unused)] &mut self, #[allow(unused)] a: u8, #[cfg(all())] b: u8) -> u8 { b }",
    "restricted": "#[cfg(not(any()))] pub(crate) fn m(&mut self, #[allow(unused_mut)] mut a: u8) -> impl futures::Stream<Item = u8> { futures::stream::iter(0..a) }",
    "under": "async fn _m(&mut self, _a: u8) -> u8 { 1 }", "konst": "const N: u8 = 1; async fn m(&mut self) -> u8 { Self::N }",
}


def rejects(cases, name, extra=""):
    """{case: [compiler messages]} for modules compiled in one crate."""
    main = ["#![allow(dead_code, unused)]"] + ["mod m_%s;" % k for k in cases] + ["fn main() {}"]
    files = {"m_%s.rs" % k: "use zod::*;\n" + t for k, t in cases.items()}
    files["main.rs"] = "\n".join(main) + "\n"
    d = harness.project(name, files)
    msgs = {k: [] for k in cases}
    try:
        harness.cargo_build(d, name)
    except harness.BuildError as e:
        hit = False
        for tgt, spans, msg in e.errors:
            for fn, line in spans:
                m = re.search(r"m_(\w+)\.rs$", fn)
                if m and m.group(1) in msgs:
                    hit = True
                    if msg not in msgs[m.group(1)]:
                        msgs[m.group(1)].append(msg)
        if not hit:
            raise
    return msgs


def registration_battery(seed, tier):
    r = Report()
    exe, v = views_or_fail(r)
    if v is None:
        return r.done("-")
    have = sorted([x["kind"], x["ns_name"], x["name"], x["nargs"], toks(x["res"])] for x in v["rpc"])
    want = []
    order = {}
    for n, (ex, ms) in NS.items():
        for (f, kind, args, res) in ms:
            want.append([kind, ex, f, len(args), toks(v["ty"][res]["type_def"])])
            alt = [kind, ex, f, len(args), toks(v["ty"][res]["inline"])]
            if alt in have:
                want[-1] = alt
    want.sort()
    r.check(have == want, "the registered RPC members", "battery/rpc/main.rs", [w for w in want if w not in have][:5] or len(want),
            [h for h in have if h not in want][:5] or len(have))
    r.cases += len(want)
    # argument names and types, through the rendering of each member
    decls = [x["decl"] for x in v["rpc"]]
    st = struct_of(v, ["export namespace N {%s}" % d for d in decls])
    specs = {(NS[n][0], m[0]): m for n in NS for m in NS[n][1]}
    for x, s in zip(v["rpc"], st):
        m = specs.get((x["ns_name"], x["name"]))
        if m is None or not s["blocks"] or not s["blocks"][0]["items"]:
            continue
        f = s["blocks"][0]["items"][0]
        have = [[p[0], toks(p[1] or "")] for p in f.get("params", [])]
        want = [[declared(a), toks(v["ty"][t]["inline"])] for a, t in m[2]]
        r.check(have == want, "arguments of a registered member", "%s.%s" % (x["ns_name"], x["name"]), want, have)
    head = "#[derive(Namespace)] pub struct N;\n#[zod::rpc::namespace]\nimpl N {\n    %s\n}\n"
    msgs = rejects({k: head % t for k, t in BAD_METHODS.items()}, "rpcreject")
    for k, t in BAD_METHODS.items():
        zod = [m for m in msgs[k] if m.startswith("zod:") or "ident" in m]
        r.check(zod, "a method which must be rejected is accepted", t, "a diagnostic of the macro", msgs[k])
    msgs = rejects({k: head % t for k, t in GOOD_METHODS.items()}, "rpcaccept")
    for k, t in GOOD_METHODS.items():
        r.check(not msgs[k], "a method which must be accepted is rejected", t, "accepted", msgs[k])
    return r.done("the methods of battery/rpc/main.rs, %d rejected and %d accepted method shapes" % (len(BAD_METHODS), len(GOOD_METHODS)))


# ---------------------------------------------------------------- C17
DUPES = {
    "same": ("#[derive(Zod)] #[zod(namespace=\"N\")] struct A { a: u8 }\nmod x { use super::*; #[derive(Zod)] #[zod(namespace=\"N\")] struct A { a: u8 } }", False),
    "renamed": ("#[derive(Zod)] #[zod(namespace=\"N\")] struct A { a: u8 }\n#[derive(Zod, serde::Deserialize)] #[serde(rename=\"A\")] #[zod(namespace=\"N\")] struct B { a: u8 }", False),
    "both_renamed": ("#[derive(Zod, serde::Deserialize)] #[serde(rename=\"C\")] #[zod(namespace=\"N\")] struct A { a: u8 }\n#[derive(Zod, serde::Deserialize)] #[serde(rename=\"C\")] #[zod(namespace=\"N\")] enum B { A(u8) }", False),
    "enum_struct": ("#[derive(Zod)] #[zod(namespace=\"N\")] enum A { X, Y }\nmod x { use super::*; #[derive(Zod)] #[zod(namespace=\"N\")] struct A(u8); }", False),
    "tuple": ("#[derive(Zod)] #[zod(namespace=\"N\")] struct A(u8, u8);\nmod x { use super::*; #[derive(Zod)] #[zod(namespace=\"N\")] struct A(u8); }", False),
    "distinct": ("#[derive(Zod)] #[zod(namespace=\"N\")] struct A { a: u8 }\n#[derive(Zod)] #[zod(namespace=\"N\")] struct B { a: u8 }", True),
    "made_distinct": ("#[derive(Zod)] #[zod(namespace=\"N\")] struct A { a: u8 }\nmod x { use super::*; #[derive(Zod, serde::Deserialize)] #[serde(rename=\"B\")] #[zod(namespace=\"N\")] struct A { a: u8 } }", True),
    "swapped": ("#[derive(Zod, serde::Deserialize)] #[serde(rename=\"B\")] #[zod(namespace=\"N\")] struct A { a: u8 }\n#[derive(Zod, serde::Deserialize)] #[serde(rename=\"A\")] #[zod(namespace=\"N\")] struct B { a: u8 }", True),
    "two_namespaces": ("#[derive(Zod)] #[zod(namespace=\"N\")] struct A { a: u8 }\nmod x { use super::*; #[derive(Zod)] #[zod(namespace=\"O\")] struct A { a: u8 } }", True),
    "keyword": ("#[derive(Zod, serde::Deserialize)] #[serde(rename=\"match\")] #[zod(namespace=\"N\")] struct A { a: u8 }\n#[derive(Zod, serde::Deserialize)] #[serde(rename=\"match\")] #[zod(namespace=\"N\")] struct B { a: u8 }", False),
    "dollar": ("#[derive(Zod, serde::Deserialize)] #[serde(rename=\"$x\")] #[zod(namespace=\"N\")] struct A { a: u8 }\n#[derive(Zod, serde::Deserialize)] #[serde(rename=\"$x\")] #[zod(namespace=\"N\")] struct B { a: u8 }", False),
    "dollars": ("#[derive(Zod, serde::Deserialize)] #[serde(rename=\"$x\")] #[zod(namespace=\"N\")] struct A { a: u8 }\n#[derive(Zod, serde::Deserialize)] #[serde(rename=\"$y\")] #[zod(namespace=\"N\")] struct B { a: u8 }", True),
    "dollar_and_taken": ("#[derive(Zod, serde::Deserialize)] #[serde(rename=\"$a\")] #[zod(namespace=\"N\")] struct A { a: u8 }\n#[derive(Zod, serde::Deserialize)] #[serde(rename=\"A\")] #[zod(namespace=\"N\")] struct B { a: u8 }", True),
    "raw_namespace": ("#[derive(zod::Namespace)] #[allow(non_camel_case_types)] struct r#match;\n#[derive(Zod)] #[zod(namespace=\"r#match\")] struct A { a: u8 }\n#[derive(Zod)] #[zod(namespace=\"r#match\")] struct B { a: u8 }", True),
    "underscore": ("#[derive(Zod)] #[zod(namespace=\"N\")] struct A { a: u8 }\n#[allow(non_camel_case_types)] #[derive(Zod)] #[zod(namespace=\"N\")] struct A_ { a: u8 }\n#[derive(Zod)] #[zod(namespace=\"N\")] struct _A { a: u8 }", True),
    "continued": ("#[derive(Zod)] #[zod(namespace=\"N\")] struct A { a: u8 }\n#[derive(Zod)] #[zod(namespace=\"N\")] struct A1 { a: u8 }\n#[derive(Zod)] #[zod(namespace=\"N\")] struct A10(u8);\n#[derive(Zod)] #[zod(namespace=\"N\")] enum AA { X }", True),
    "accents": ("#[derive(Zod)] #[zod(namespace=\"N\")] struct E { a: u8 }\n#[derive(Zod)] #[zod(namespace=\"N\")] struct \u00c9 { a: u8 }", True),
    "case": ("#[derive(Zod)] #[zod(namespace=\"N\")] struct Ab { a: u8 }\n#[derive(Zod)] #[zod(namespace=\"N\")] struct AB { a: u8 }", True),
}


def registry_battery(seed, tier):
    r = Report()
    exe, v = views_or_fail(r)
    if v is None:
        return r.done("-")
    members = {NS[n][0]: sorted(x) for n, x in MEMBERS.items()}
    r.check(sorted((m["ns"], m["member"]) for m in v["member"]) == sorted((k, x) for k, xs in members.items() for x in xs),
            "the registered types", "battery/rpc/main.rs", members, sorted((m["ns"], m["member"]) for m in v["member"]))

    def view(what, got, ns):
        r.check(sorted(map(tuple, got)) == [(ns, x) for x in members[ns]], what + " of namespace " + ns, "battery/rpc/main.rs", members[ns], got)
    got = v["collected"]
    for ns in members:
        view("the collection", got.get(ns, []), ns)
    r.check(set(got) <= set(members), "the collection has a namespace of its own", "battery/rpc/main.rs", sorted(members), sorted(got))
    decls = {}
    for x in v["rpc"]:
        decls.setdefault(x["ns_name"], []).append(x["decl"])
    for n, x in v["ns"].items():
        r.check(x["exported"] == NS[n][0], "the exported name of a namespace", n, NS[n][0], x["exported"])
        view("members()", x["members"], NS[n][0])
        r.check(sorted(x["rpc_members"]) == sorted(decls.get(NS[n][0], [])), "rpc_members() of namespace " + n, "battery/rpc/main.rs",
                len(decls.get(NS[n][0], [])), len(x["rpc_members"]))
    for b, nss in BACKENDS.items():
        x = v["backend"][b]
        want = [NS[n][0] for n in nss]
        r.check(x["ns_names"] == want, "the namespaces of backend " + b, b, want, x["ns_names"])
        for ns in members:
            if ns in want:
                view("the view of backend " + b, x["zod_namespaces"].get(ns, []), ns)
                r.check(sorted(x["rpc_members"].get(ns, [])) == sorted(decls.get(ns, [])), "RPC members of namespace %s in backend %s" % (ns, b), b,
                        len(decls.get(ns, [])), len(x["rpc_members"].get(ns, [])))
            else:
                r.check(ns not in x["zod_namespaces"] and ns not in x["rpc_members"], "a namespace of another backend", "%s in %s" % (ns, b), "absent",
                        [sorted(x["zod_namespaces"]), sorted(x["rpc_members"])])
        r.check(set(x["zod_namespaces"]) | set(x["rpc_members"]) <= set(want), "namespaces in the views of backend " + b, b, want,
                [sorted(x["zod_namespaces"]), sorted(x["rpc_members"])])
    head = "#[derive(Namespace)] pub struct N; #[derive(Namespace)] pub struct O;\n%s\n"
    msgs = rejects({k: head % t[0] for k, t in DUPES.items()}, "dupes")
    for k, (t, ok) in DUPES.items():
        if ok:
            r.check(not msgs[k], "types with different exported names are rejected", t, "accepted", msgs[k])
        else:
            r.check(msgs[k], "two types with one exported name are accepted", t, "rejected", "compiles")
    return r.done("the registry of battery/rpc/main.rs and %d pairs of types" % len(DUPES))


# ---------------------------------------------------------------- runtime: C10 - C14
def decodes(t, x):
    def i(lo, hi):
        return isinstance(x, int) and not isinstance(x, bool) and lo <= x <= hi
    if t == "u32":
        return i(0, 2 ** 32 - 1)
    if t == "u8":
        return i(0, 255)
    if t == "i32":
        return i(-2 ** 31, 2 ** 31 - 1)
    if t == "bool":
        return isinstance(x, bool)
    if t == "String":
        return isinstance(x, str)
    if t.startswith("Option<"):
        return x is None or decodes(t[7:-1], x)
    if t == "(bool,)":
        return isinstance(x, list) and len(x) == 1 and isinstance(x[0], bool)
    if t == "Vec<(u8, String)>":
        return isinstance(x, list) and all(isinstance(e, list) and len(e) == 2 and decodes("u8", e[0]) and decodes("String", e[1]) for e in x)
    if t == "BetaItem":
        if isinstance(x, list):
            return len(x) == 2 and decodes("u8", x[0]) and decodes("String", x[1])
        return isinstance(x, dict) and decodes("u8", x.get("z_last")) and decodes("String", x.get("a_first"))
    raise KeyError(t)


ERR = object()


def result(n, f, a):
    """JSON of the value the method returns, or ERR."""
    if n == "Alpha":
        if f == "m0":
            return 7
        if f == "m1":
            return a[0] + 1
        if f == "m2":
            return "%s-%d" % (a[0], a[1])
        if f == "m3":
            return a[::-1]
        if f == "m5":
            return a
        if f in ("unit", "unit2"):
            return None
        if f == "opt":
            return None if a[0] is None else a[0] * 2
        if f == "res":
            return {"Ok": str(a[0])} if a[0] < 10 else {"Err": a[0]}
        if f == "bad":
            return ERR if a[0] >= 100 else {"value": a[0]}
        if f == "nested":
            return a[0]
        if f in ("slow", "wait", "echo", "flag"):
            return a[0]
    if f == "m1":
        return a[0] + {"Beta": 2, "Gamma": 3, "Other": 4}[n]
    if n == "Beta":
        return {"z_last": 1, "a_first": "x"} if f == "get" else a[0]["z_last"]
    if n == "Gamma":
        return 33
    if n == "Raw":
        return {"type": lambda: "%d%s" % (a[0], a[1]), "get_all": lambda: 1, "get": lambda: 2, "getAll": lambda: 3,
                "method": lambda: a[1], "id": lambda: a}[f]()
    if n == "Calls":
        return "pong"
    raise KeyError((n, f))


def items(n, f, a):
    """Items of the streams which produce all their items at once; None for those which are pushed."""
    if f == "iter":
        return list(range(a[0], a[1]))
    if f == "strings":
        return ["%s%s%d" % (a[0], a[2] or "", i) for i in range(a[1])]
    if f == "opts":
        return [[None, [], [i]][i % 3] for i in range(a[0])]
    if f == "closed":
        return []
    return None


class StreamModel:
    def __init__(self, cid, rid, key, bad):
        self.cid, self.rid, self.key, self.bad = cid, rid, key, bad
        self.items = []          # expected responses in order
        self.sure = 0            # as many of them are delivered for certain
        self.live = True         # not aborted
        self.ended = False
        self.stopped = False     # noticed that the receiver is gone
        self.gone = False        # the stream itself is dropped

    def item(self, v):
        if self.bad:
            return ["error", None] if v >= 100 else ["stream", {"value": v}]
        return ["stream", v]


class Model:
    """What the properties say about a history of requests."""

    def __init__(self, proxied):
        self.proxied = proxied
        self.clients = {}
        self.queue = []
        self.blocked = None      # (gate, client, id)
        self.log = []
        self.streams = []
        self.taps = {}
        self.maybe = {}

    def connect(self, c):
        self.clients[c] = {"map": {}, "tx": True, "rx": True, "open": True, "map_alive": True, "answers": []}

    def request(self, c, text):
        cl = self.clients[c]
        if not cl["tx"]:
            return
        self.queue.append((c, cl, text))
        if not self.proxied:
            self.process()

    def process(self):
        while self.queue and self.blocked is None:
            c, cl, text = self.queue.pop(0)
            self.handle(c, cl, text)
            self.sweep()

    def answer(self, cl, kind, rid, data):
        cl["answers"].append([kind, rid, data])

    def handle(self, c, cl, text):
        try:
            j = json.loads(text)
        except ValueError:
            return self.answer(cl, "error", None, None)
        if not isinstance(j, dict):
            return self.answer(cl, "error", None, None)
        if "cancelStream" in j:
            rid = j["cancelStream"]["id"]
            st = cl["map"].pop(rid, None)
            if st:
                self.abort(st)
            return
        if "exec" not in j:
            return self.answer(cl, "error", None, None)
        e = j["exec"]
        rid = e["id"]
        n = EXPORTED.get(e.get("namespace")) if isinstance(e.get("namespace"), str) else None
        m = None
        if n in BACKENDS["Main"]:
            m = next((x for x in NS[n][1] if x[0] == e.get("method")), None)
        args = e.get("args")
        if m is None or not isinstance(args, list) or len(args) != len(m[2]) or not all(decodes(t, x) for (_, t), x in zip(m[2], args)):
            return self.answer(cl, "error", rid, None)
        logged = [{"z_last": x[0], "a_first": x[1]} if t == "BetaItem" and isinstance(x, list) else x for (_, t), x in zip(m[2], args)]
        logged = [{"z_last": x["z_last"], "a_first": x["a_first"]} if t == "BetaItem" else x for (_, t), x in zip(m[2], logged)]
        self.log.append([n, m[0], logged])
        if m[1] == "method":
            if m[0] == "wait":
                self.blocked = (args[0], cl, rid)
                return
            if m[0] == "slow":
                self.log.append([n, "slow:end", logged])
            v = result(n, m[0], logged)
            self.answer(cl, "error" if v is ERR else "method", rid, None if v is ERR else v)
            return
        st = StreamModel(c, rid, None, m[0] == "badtap")
        st.cl = cl
        if rid in cl["map"]:
            self.abort(cl["map"][rid])
        cl["map"][rid] = st
        self.streams.append(st)
        vs = items(n, m[0], logged)
        if vs is None:
            st.key = args[0]
            self.taps[args[0]] = st
        else:
            st.items = [["stream", v] for v in vs]
            st.ended = True
        if not cl["map_alive"]:
            self.abort(st)

    def abort(self, st):
        if st.live:
            st.live = False

    def push(self, key, v):
        st = self.taps.get(key)
        if st and st.live and not st.ended:
            if not st.stopped:
                st.items.append(st.item(v))

    def end(self, key):
        st = self.taps.get(key)
        if st:
            st.ended = True

    def open(self, gate):
        # the method goes on at the next settling
        if self.blocked and self.blocked[0] == gate:
            self.opened = True

    def sweep(self):
        for cl in self.clients.values():
            held = not self.proxied and cl["map_alive"] or self.proxied and (
                cl["tx"] or cl["rx"] or any(q[1] is cl for q in self.queue) or (self.blocked and self.blocked[1] is cl))
            if not held:
                cl["map_alive"] = False
                for st in cl["map"].values():
                    self.abort(st)

    def settle(self):
        while True:
            if self.blocked and getattr(self, "opened", False):
                g, cl, rid = self.blocked
                self.blocked = None
                self.opened = False
                self.log.append(["Alpha", "wait:end", [g]])
                self.answer(cl, "method", rid, g)
            n = len(self.queue)
            self.process()
            if not (self.blocked and getattr(self, "opened", False)) and len(self.queue) == n:
                break
        self.sweep()
        for st in self.streams:
            if st.live:
                if st.cl["rx"]:
                    st.sure = len(st.items)
                elif len(st.items) > st.sure:
                    st.stopped = True
            if st.ended or not st.live or st.stopped:
                st.gone = True


VALS = {
    "u32": lambda r: r.choice([0, 1, 7, 99, 4294967295 - 5]), "u8": lambda r: r.choice([0, 3, 9, 10, 255]),
    "i32": lambda r: r.choice([-5, 0, 2 ** 31 - 1]), "bool": lambda r: r.random() < 0.5, "String": lambda r: r.choice(["", "a", "\u00e9\"\\\n"]),
    "Option<u32>": lambda r: r.choice([None, 4]), "Option<String>": lambda r: r.choice([None, "-"]),
    "Vec<(u8, String)>": lambda r: [[i, "s%d" % i] for i in range(r.randrange(3))], "(bool,)": lambda r: [r.random() < 0.5],
    "BetaItem": lambda r: r.choice([{"z_last": 2, "a_first": "b"}, {"a_first": "b", "z_last": 9}])}
WRONG = {
    "u32": [-1, 1.5, "1", None, 2 ** 32, [], True], "u8": [256, -1, "x", None], "i32": [2 ** 31, 0.5, "a"], "bool": [0, "true", None],
    "String": [1, None, ["a"]], "Option<u32>": ["x", -1, {}], "Option<String>": [5], "Vec<(u8, String)>": [[[1]], [["a", 1]], 5, None],
    "(bool,)": [[1], [], [True, True], True], "BetaItem": [{"z_last": 3}, {"z_last": "3", "a_first": "q"}, 5, None]}


class Gen:
    def __init__(self, rnd, proxied, settled):
        self.r = rnd
        self.proxied = proxied
        self.settled = settled
        self.tap = 0
        self.gate = 0
        self.open_gates = []

    def exec(self, rid, ns, method, args, rnd):
        call = [("id", rid), ("namespace", ns), ("method", method), ("args", args)]
        rnd.shuffle(call)
        return json.dumps({"exec": {k: v for k, v in call if v is not ERR}})

    def args(self, m):
        out = []
        for a, t in m[2]:
            if m[1] == "stream" and a in ("key", "use"):
                self.tap += 1
                out.append(self.tap)
            elif m[0] == "wait":
                self.gate += 1
                self.open_gates.append(self.gate)
                out.append(self.gate)
            elif m[0] == "slow":
                out.append(self.r.choice([0, 1, 5]))
            elif m[0] == "bad":
                out.append(self.r.choice([1, 99, 100, 500]))
            elif m[0] == "iter":
                out.append(self.r.randrange(0, 6))
            elif m[0] == "strings" and t == "u8":
                out.append(self.r.randrange(4))
            else:
                out.append(VALS[t](self.r))
        return out

    def request(self):
        r = self.r
        k = r.random()
        if k < 0.16:
            return json.dumps({"cancelStream": {"id": self.rid()}})
        if k < 0.19:
            return r.choice(["", "nonsense", "{}", "[]", "{\"other\":{\"id\":1}}", "5", "null"])
        n = r.choice(["Alpha", "Alpha", "Alpha", "Beta", "Gamma", "Raw", "Raw", "Calls"])
        ex, ms = NS[n]
        m = r.choice(ms)
        if r.random() < 0.3:
            m = r.choice([x for x in ms if x[1] == "stream"] or ms)
        if m[0] == "wait" and (not self.proxied or r.random() < 0.5):
            m = ms[0]
        if k < 0.34:
            # something which is no call of a method
            args = [VALS[t](r) for _, t in m[2]]
            how = r.randrange(9)
            meth = m[0]
            if how == 0:
                ex = r.choice(["Raw", "nope", "", "Calls2", "alpha", "Other", "AlphaTypes", 5, None, "r#type"])
            elif how == 1:
                meth = r.choice(["nope", "", "M1", "r#type", "m1 ", "slow:end", "UNRELATED", 3, None, "get2"])
            elif how == 2:
                args = args + [1]
            elif how == 3 and args:
                args = args[:-1]
            elif how == 4 and args:
                i = r.randrange(len(args))
                args[i] = r.choice(WRONG[m[2][i][1]])
            elif how == 5:
                args = r.choice([None, ERR, {}, 5, "x"])
            elif how == 6:
                meth = ERR
            elif how == 7:
                ex = ERR
            elif how == 8:
                o = r.choice(list(NS))
                if NS[o][1]:
                    meth = r.choice(NS[o][1])[0]
                    if meth in ("wait", "tap", "tapc", "badtap", "loop"):
                        meth = "nope"
            if meth not in ("wait", "tap", "tapc", "badtap", "loop", "iter"):
                return self.exec(self.rid(), ex, meth, args, r)
        args = self.args(m)
        return self.exec(self.rid() + (5000 if m[0] == "badtap" else 0), ex, m[0], args, r)

    def rid(self):
        return self.r.randrange(5) if self.r.random() < 0.8 else self.r.choice([0, 2 ** 32, 2 ** 53, 77])

    def script(self, length):
        r = self.r
        ops = []
        nc = r.randrange(1, 4)
        for c in range(nc):
            ops.append({"op": "connect", "c": c})
        for _ in range(length):
            k = r.random()
            c = r.randrange(nc)
            if k < 0.5:
                ops.append({"op": "req", "c": c, "text": self.request()})
            elif k < 0.72 and self.tap:
                t = r.randrange(max(1, self.tap - 5), self.tap + 1)
                for _ in range(r.randrange(1, 4)):
                    ops.append({"op": "push", "tap": t, "v": r.choice([1, 2, 3, 50, 99, 100, 120])})
            elif k < 0.76 and self.tap:
                ops.append({"op": "end", "tap": r.randrange(max(1, self.tap - 5), self.tap + 1)})
            elif k < 0.84 and self.open_gates:
                ops.append({"op": "settle"})
                ops.append({"op": "open", "gate": self.open_gates.pop(0)})
            elif k < 0.87:
                ops.append({"op": r.choice(["drop_rx", "drop_tx" if self.proxied else "drop_map", "close"]), "c": c})
                if ops[-1]["op"] == "close" and r.random() < 0.7:
                    ops.append({"op": "settle"})
                    ops.append({"op": "observe"})
                    ops.append({"op": "connect", "c": c})
            elif k < 0.9:
                ops.append({"op": "settle"})
                ops.append({"op": "observe"})
            else:
                ops.append({"op": "settle"})
            if self.settled:
                ops.append({"op": "settle"})
        for g in self.open_gates:
            ops.append({"op": "settle"})
            ops.append({"op": "open", "gate": g})
        ops.append({"op": "settle"})
        ops.append({"op": "observe"})
        return self.clean(ops)

    def clean(self, ops):
        """Drops operations on clients which are gone."""
        alive, out = {}, []
        for o in ops:
            c = o.get("c")
            if o["op"] == "connect":
                alive[c] = {"map": True}
            elif c is not None:
                if c not in alive:
                    continue
                if o["op"] == "close":
                    del alive[c]
            out.append(o)
        return out


def call(rid, ns, m, args, c=0):
    return {"op": "req", "c": c, "text": json.dumps({"exec": {"id": rid, "namespace": ns, "method": m, "args": args}})}


def fixed_scripts():
    """Histories which pseudo-random ones of a moderate length do not contain."""
    con, settle, look = {"op": "connect", "c": 0}, {"op": "settle"}, {"op": "observe"}
    long = [con, call(1, "Alpha", "iter", [0, 5000]), settle, look, call(1, "Alpha", "opts", [255]), call(2, "Alpha", "opts", [7]), settle, look]
    n = 300
    many = [con] + [call(i, "Alpha", "tap", [i + 1]) for i in range(n)] + [settle] + [{"op": "push", "tap": i + 1, "v": i} for i in range(n)] + [
        settle, look] + [{"op": "req", "c": 0, "text": json.dumps({"cancelStream": {"id": i}})} for i in range(0, n, 2)] + [settle] + [
        {"op": "push", "tap": i + 1, "v": 7} for i in range(n)] + [settle, look, {"op": "drop_map", "c": 0}, settle, look]
    deep = [con, call(0, "Alpha", "tap", [1]), settle] + [{"op": "push", "tap": 1, "v": i} for i in range(3000)] + [settle, look] + [
        {"op": "push", "tap": 1, "v": 0} for i in range(50)] + [settle, look]
    near = [con]
    for i, x in enumerate((" Alpha", "Alpha ", "Alpha\n", "\tAlpha", "Alpha\u00a0", "ALPHA", "alpha", "Alph", "Alphaa", "Alpha.", "Alpha::", "r#Alpha", "\ufeffAlpha",
                           "Alpha\u0000", "Alpha/", "", " ", "Gamma2", "Beta ", "\"Alpha\"", "self", "Types", "Empty", "Other", "a_raw", "ARaw", "araw")):
        near.append(call(i, x, "m1", [1]))
    for i, x in enumerate((" m1", "m1 ", "m1\n", "M1", "m", "m11", "m1()", "r#m1", "Alpha.m1", "Alpha::m1", "", " ", "m1\u0000", "m_1", "unit ", "Unit", "M0", "call")):
        near.append(call(100 + i, "Alpha", x, [1]))
        near.append(call(200 + i, "Alpha", x, []))
    near += [call(i, "aRaw", x, []) for i, x in enumerate(("r#type", "get_All", "GetAll", "get-all", "getall", "get", "get_all", "getAll", "Get"))]
    near += [settle, look]
    values = [con] + [call(i, "Alpha", "echo", [x]) for i, x in enumerate(("", " ", "null", "\u0000", "\u2028", "a\u0301", "\ud83d\ude00", "x" * 70000, "\ufeff", "{}", "%s", "\\n"))] + [
        call(1, "Alpha", "flag", [False]), call(2, "Alpha", "flag", [True]), call(0, "Alpha", "nested", [[], [False]]), settle, look]
    ids = [con]
    for i, rid in enumerate((0, 1, 255, 256, 65535, 65536, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 53 + 1, 2 ** 63, 2 ** 64 - 1)):
        ids += [call(rid, "Alpha", "m1", [i]), call(rid, "Alpha", "tap", [i + 1])]
    ids += [settle] + [{"op": "push", "tap": i + 1, "v": i} for i in range(13)] + [settle, look]
    ids += [{"op": "req", "c": 0, "text": json.dumps({"cancelStream": {"id": x}})} for x in (2 ** 32, 2 ** 63, 256)] + [settle]
    ids += [{"op": "push", "tap": i + 1, "v": i} for i in range(13)] + [settle, look]
    return [long, many, deep, near, values, ids]


def run_scripts(exe, mode, scripts):
    inp = "\n".join(json.dumps(s) for s in scripts) + "\n"
    try:
        p = subprocess.run([exe, mode], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=240)
        out, err = p.stdout.decode(), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        out, err = (e.stdout or b"").decode(), "does not end"
    res, cur = [], []
    for line in out.split("\n")[:-1]:
        j = json.loads(line)
        if "done" in j:
            res.append((cur, j["done"]))
            cur = []
        else:
            cur.append(j)
    while len(res) < len(scripts):
        res.append((cur, False))
        cur = []
    return res, err[-800:]


def judge(script, obs, done, mode, r, aspects):
    """Compares the observations of one script with the model; aspects name what this property cares about."""
    m = Model(mode == "proxied")
    obs = [o for o in obs if "disconnected" not in o]
    inp = {"mode": mode, "script": script}
    if not done:
        r.check(False, "the server panics or does not go on", inp, "no panic", "script ended after %d of %d observations" % (len(obs), sum(o["op"] == "observe" for o in script)))
        return
    seen = {}          # client state -> list of received
    k = 0
    gone = {}
    for idx, op in enumerate(script):
        o = op["op"]
        c = op.get("c")
        if o == "connect":
            m.connect(c)
        elif o == "req":
            m.request(c, op["text"])
        elif o == "push":
            m.push(op["tap"], op["v"])
        elif o == "end":
            m.end(op["tap"])
        elif o == "open":
            m.open(op["gate"])
        elif o == "drop_rx":
            m.clients[c]["rx"] = False
        elif o == "drop_tx":
            m.clients[c]["tx"] = False
        elif o == "drop_map":
            m.clients[c]["map_alive"] = False
            m.clients[c]["tx"] = False
            m.sweep()
        elif o == "close":
            cl = m.clients[c]
            cl["rx"] = cl["tx"] = False
            cl["map_alive"] = cl["map_alive"] and m.proxied
            m.sweep()
            gone.setdefault(c, []).append(m.clients.pop(c))
            m.clients[("gone", len(gone[c]), c)] = cl
        elif o == "settle":
            m.settle()
        elif o == "observe":
            got = obs[k] if k < len(obs) else {"log": [], "clients": {}, "dropped": []}
            k += 1
            at = dict(inp, upto=idx)
            if "calls" in aspects:
                r.check(got["log"] == m.log, "the methods invoked", at, m.log, got["log"])
            m.log = []
            drop = {}
            for t in got["dropped"]:
                drop[t] = drop.get(t, 0) + 1
            if "tasks" in aspects:
                for st in m.streams:
                    if st.key is None or getattr(st, "reported", False):
                        continue
                    have = drop.get(st.key, 0)
                    if st.gone:
                        st.reported = True
                    r.check((have > 0) == st.gone, "a stream which must %s" % ("have stopped still runs" if st.gone else "run was stopped"),
                            dict(at, tap=st.key, id=st.rid), "stopped" if st.gone else "running", "stopped" if have else "running")
            for c2, cl in m.clients.items():
                if not isinstance(c2, int):
                    continue
                g = got["clients"].get(str(c2))
                if g is None:
                    r.check(False, "no observation of a client", at, c2, sorted(got["clients"]))
                    continue
                if "table" in aspects and g["subs"] is not None and cl["map_alive"]:
                    r.check(g["subs"] == sorted(cl["map"]), "ids in the subscription table", dict(at, client=c2), sorted(cl["map"]), g["subs"])
                recv = seen.setdefault(id(cl), [])
                for x in g["got"]:
                    (kind, body), = x.items()
                    ok = set(body) == {"id", "data"} and (kind != "error" or (isinstance(body["data"], dict) and list(body["data"]) == ["JsonError"] and isinstance(body["data"]["JsonError"], str)))
                    if "wire" in aspects:
                        r.check(ok, "shape of a response", at, "{%s: {id, data}}" % kind, x)
                    recv.append([kind, body.get("id"), None if kind == "error" else body.get("data")])
                if not cl["rx"]:
                    continue
                sts = [s for s in m.streams if s.cl is cl]
                badids = {s.rid for s in sts if s.bad}
                main = [x for x in recv if x[0] != "stream" and x[1] not in badids]
                want = [x for x in cl["answers"]]
                if "answers" in aspects:
                    r.check(main == want, "the answers to the requests of a client", dict(at, client=c2), want, main)
                if "items" in aspects:
                    for rid in sorted({s.rid for s in sts} | {x[1] for x in recv if x[0] == "stream"}, key=str):
                        have = [[x[0], x[2]] for x in recv if x[1] == rid and (x[0] == "stream" or rid in badids)]
                        why = stream_match(have, [s for s in sts if s.rid == rid])
                        r.check(why is None, "the items delivered for a stream", dict(at, client=c2, id=rid),
                                why, have)
        if o in ("connect",):
            continue
    return


def stream_match(have, sts):
    """The items of the streams started one after the other under one id: of each all, or a prefix if it was stopped."""
    # possible positions after the streams so far
    pos = {0}
    for s in sts:
        want = s.items
        nxt = set()
        for p in pos:
            n = 0
            while n <= len(want) and have[p:p + n] == want[:n]:
                if n >= s.sure and (not s.live or s.stopped or n == len(want)):
                    nxt.add(p + n)
                if p + n >= len(have):
                    break
                n += 1
        pos = nxt
    if len(have) in pos:
        return None
    return [{"items": s.items, "at_least": s.sure, "stopped": not s.live} for s in sts]


def runtime_battery(mode, aspects, what):
    def fn(seed, tier):
        r = Report()
        exe = build_or_fail(r)
        if exe is None:
            return r.done("-")
        rnd = random.Random(seed * 7919 + 13)
        n = 150 if tier == "quick" else 1200
        scripts = fixed_scripts()
        if mode == "proxied":
            scripts = [[dict(o, op="close") if o["op"] == "drop_map" else o for o in sc] for sc in scripts]
        for i in range(n):
            g = Gen(rnd, mode == "proxied", i % 3 != 0)
            scripts.append(g.script(rnd.choice([4, 12, 30, 60])))
        res, err = run_scripts(exe, mode, scripts)
        for s, (obs, done) in zip(scripts, res):
            judge(s, obs, done, mode, r, aspects)
            if len(r.failures) > 8:
                break
        for f in r.failures:
            f["stderr"] = err[-300:]
        return r.done("6 fixed and %d pseudo-random scripts of up to 60 operations (%s) against the backend of battery/rpc/main.rs" % (n, mode), scripts=n)
    return fn


# ---------------------------------------------------------------- C18
REQUESTS = [
    ('{"exec":{"id":1,"namespace":"A","method":"m","args":[1]}}', {"exec": 1, "value": {"namespace": "A", "method": "m", "args": [1]}}),
    ('{"exec":{"args":[],"method":"m","namespace":"A","id":18446744073709551615}}', {"exec": 18446744073709551615, "value": {"namespace": "A", "method": "m", "args": []}}),
    ('{"exec":{"id":0}}', {"exec": 0, "value": {}}),
    ('{"exec":{"id":3,"args":{"id":4}}}', {"exec": 3, "value": {"args": {"id": 4}}}),
    ('{"cancelStream":{"id":0}}', {"cancel": 0}), ('{"cancelStream":{"id":7}}', {"cancel": 7}),
] + [(t, {"error": True}) for t in (
    '{"Exec":{"id":1}}', '{"EXEC":{"id":1}}', '{"CancelStream":{"id":1}}', '{"cancel_stream":{"id":1}}', '{"cancel":{"id":1}}', '{"id":1}',
    '{"exec":{}}', '{"exec":{"namespace":"A","method":"m","args":[]}}', '{"exec":{"id":-1}}', '{"exec":{"id":"1"}}', '{"exec":{"id":1.5}}',
    '{"exec":{"id":null}}', '{"exec":{"id":1},"cancelStream":{"id":1}}', '{"cancelStream":{}}', '{"cancelStream":{"id":-1}}',
    '{"cancelStream":1}', '{"exec":1}', '{"exec":[1]}', '[]', '{}', '"exec"', 'null', '', '{"exec":{"id":1}', '{"type":"exec","id":1}',
    '{"cancelStream":{"stream":1}}', '{"exec":{"req_id":1}}')]


def wire_battery(seed, tier):
    r = Report()
    exe, v = views_or_fail(r)
    if v is None:
        return r.done("-")
    res, err = run_scripts(exe, "parse", [[{"text": t} for t, _ in REQUESTS]])
    got = res[0][0]
    for (t, want), g in zip(REQUESTS, got + [None] * len(REQUESTS)):
        if want == {"error": True} or g is None or "error" in g:
            r.check(g == want, "reading a request", t, want, g)
        else:
            r.check(g == want, "reading a request", t, want, g)
    text = v["response"]["error"]["text"]
    bad = ["bad value 100", "bad value 101"]
    want = {"method": {"method": {"id": 5, "data": {"a": [1, None]}}}, "method0": {"method": {"id": 0, "data": None}},
            "method_bad": {"error": {"id": 6, "data": {"JsonError": bad[0]}}}, "stream": {"stream": {"id": 7, "data": "x"}},
            "stream_big": {"stream": {"id": 2 ** 64 - 1, "data": [1, None]}}, "stream_bad": {"error": {"id": 8, "data": {"JsonError": bad[1]}}},
            "error": {"error": {"id": 9, "data": {"JsonError": text}}}, "error_none": {"error": {"id": None, "data": {"JsonError": text}}}}
    for k, w in want.items():
        g = json.loads(v["response"][k]["json"])
        r.check(g == w, "the JSON of a response", k, w, g)
    # what the shipped client sends
    calls = []
    for n in BACKENDS["Main"]:
        for m in NS[n][1]:
            if m[0] == "wait":
                continue
            vals = [VALID[t][i % len(VALID[t])] for i, (_, t) in enumerate(m[2])]
            if m[0] in ("iter", "slow"):
                vals = [2, 4][:len(vals)]
            calls.append((n, m, vals))
    out = client_js([{"wire": True, "client": v["backend"]["Main"]["ws_client"],
                      "calls": [{"ns": NS[n][0], "fn": declared(m[0]), "args": a} for n, m, a in calls]}])[0]
    if "error" in out:
        r.check(False, "the shipped client cannot be run", "Main", "runs", out["error"])
        return r.done("-")
    script = [{"op": "connect", "c": 0}]
    model = Model(False)
    model.connect(0)
    ids = set()
    for (n, m, a), w in zip(calls, out["wire"]):
        inp = "%s.%s(%s)" % (NS[n][0], m[0], json.dumps(a)[1:-1])
        r.check(len(w["frames"]) == 1, "messages sent for a call", inp, 1, w)
        for f in w["frames"]:
            j = json.loads(f)
            e = j.get("exec", {})
            r.check(j == {"exec": {"id": e.get("id"), "namespace": NS[n][0], "method": m[0], "args": a}} and isinstance(e.get("id"), int) and e["id"] not in ids,
                    "the message sent for a call", inp, {"exec": {"id": "fresh", "namespace": NS[n][0], "method": m[0], "args": a}}, j)
            ids.add(e.get("id"))
            script.append({"op": "req", "c": 0, "text": f})
    script += [{"op": "settle"}, {"op": "observe"}]
    res, err = run_scripts(exe, "direct", [script])
    judge(script, res[0][0], res[0][1], "direct", r, ["calls", "answers", "wire", "items"])
    return r.done("%d messages, all response constructors, and one call of every method through the shipped client" % len(REQUESTS))


# ---------------------------------------------------------------- C15
class WsClient:
    def __init__(self, port):
        import socket
        import base64
        self.s = socket.create_connection(("127.0.0.1", port), timeout=20)
        self.s.sendall(("GET /ws HTTP/1.1\r\nHost: localhost\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: %s\r\n"
                        "Sec-WebSocket-Version: 13\r\n\r\n" % base64.b64encode(b"0123456789abcdef").decode()).encode())
        self.buf = b""
        while b"\r\n\r\n" not in self.buf:
            self.more()
        head, self.buf = self.buf.split(b"\r\n\r\n", 1)
        if b" 101 " not in head.split(b"\r\n")[0]:
            raise RuntimeError("no upgrade: %r" % head[:100])
        self.frames = []

    def more(self):
        d = self.s.recv(65536)
        if not d:
            raise EOFError
        self.buf += d

    def need(self, n):
        while len(self.buf) < n:
            self.more()

    def send(self, op, payload, fin=True):
        mask = b"\x11\x22\x33\x44"
        h = bytes([(0x80 if fin else 0) | op])
        n = len(payload)
        h += bytes([0x80 | n]) if n < 126 else bytes([0x80 | 126]) + n.to_bytes(2, "big") if n < 65536 else bytes([0x80 | 127]) + n.to_bytes(8, "big")
        self.s.sendall(h + mask + bytes(b ^ mask[i % 4] for i, b in enumerate(payload)))

    def recv(self, timeout=10):
        """(opcode, payload), or None when nothing comes, or "closed"."""
        import socket
        self.s.settimeout(timeout)
        try:
            self.need(2)
            op, n, at = self.buf[0] & 15, self.buf[1] & 127, 2
            if n == 126:
                self.need(4)
                n, at = int.from_bytes(self.buf[2:4], "big"), 4
            elif n == 127:
                self.need(10)
                n, at = int.from_bytes(self.buf[2:10], "big"), 10
            self.need(at + n)
            p = self.buf[at:at + n]
            self.buf = self.buf[at + n:]
            return op, p
        except socket.timeout:
            return None
        except (EOFError, OSError):
            return "closed"


class WsServer:
    def __init__(self, exe):
        self.p = subprocess.Popen([exe, "serve"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.port = json.loads(self.p.stdout.readline())["port"]

    def op(self, o):
        self.p.stdin.write((json.dumps(o) + "\n").encode())
        self.p.stdin.flush()

    def observe(self):
        self.op({"op": "observe"})
        return json.loads(self.p.stdout.readline())

    def stop(self):
        self.p.kill()
        self.p.wait()


def ex(rid, ns, m, args):
    return json.dumps({"exec": {"id": rid, "namespace": ns, "method": m, "args": args}})


NO_REQUESTS = ["nonsense", "{}", "", "[1", "{\"exec\":{}}", "null", "\u00e9", "\ufeff" + ex(1, "Alpha", "m1", [1]), "\ufeff", ex(1, "Alpha", "m1", [1]) + ";",
               ex(1, "Alpha", "m1", [1]) * 2, " ", "\u0000", "[" + ex(1, "Alpha", "m1", [1]) + "]", json.dumps(ex(1, "Alpha", "m1", [1])), "x" * 70000,
               "{\"ping\":1}", "ping", "\"close\"", "{\"exec\":null}", "{\"cancelStream\":{\"id\":null}}", ex(1, "Alpha", "m1", [1]).replace(":", "=", 1)]
# characters which are no white space of JSON and which a lenient reader drops from either end of a text
for _c in ["\u0000", "\ufeff", "\u00a0", "\u2028", "\u200b", "\u3000", "\u0085", "\x0b", "\x0c", "\x04", "\x1a", "\x1e", "\x7f", ";", ",", "'", "`", "\"", "}", "{",
           "(", ")", "0", "a", "\\", "\\n", "//", "/**/", "#", "data: ", ")]}'\n"]:
    NO_REQUESTS += [_c + ex(1, "Alpha", "m1", [1]), ex(1, "Alpha", "m1", [1]) + _c, _c + ex(1, "Alpha", "m1", [1]) + _c]
NO_REQUESTS += [ex(1, "Alpha", "m1", [1]) + "\r\n\u0000", "\n\ufeff" + ex(1, "Alpha", "m1", [1]), ex(1, "Alpha", "m1", [1]).replace("}", ",}"), ex(1, "Alpha", "m1", [1]).replace("[1]", "[1,]"),
                ex(1, "Alpha", "m1", [1]).replace("\"", "'"), ex(1, "Alpha", "m1", [1]).replace("{", "{\u0000", 1)]


def websocket_battery(seed, tier):
    import time
    r = Report()
    exe = build_or_fail(r)
    if exe is None:
        return r.done("-")
    srv = WsServer(exe)
    rnd = random.Random(seed * 31 + 5)
    try:
        for rnd_no in range(12 if tier == "quick" else 60):
            c = WsClient(srv.port)
            other = WsClient(srv.port)
            sent, want, calls = [], [], []
            for i in range(len(NO_REQUESTS) if rnd_no == 1 else 11 if rnd_no == 0 else rnd.choice([1, 5, 25])):
                k = 4 if rnd_no == 1 else i if rnd_no == 0 else rnd.randrange(11)
                rid = rnd.randrange(4)
                if k <= 3:
                    a = rnd.randrange(1000)
                    t = rnd.choice(["", "", " ", "\n\t"]) + ex(rid, "Alpha", "m1", [a]) + rnd.choice(["", "", "\r\n"])
                    c.send(1, t.encode())
                    want.append({"method": {"id": rid, "data": a + 1}})
                    calls.append(["Alpha", "m1", [a]])
                elif k == 4:
                    t = NO_REQUESTS[i] if rnd_no == 1 else rnd.choice(NO_REQUESTS)
                    c.send(1, t.encode())
                    want.append({"error": {"id": None, "data": None}})
                elif k == 5:
                    t = "binary"
                    c.send(2, rnd.choice([ex(rid, "Alpha", "m0", []).encode(), b"", b"\xff\x00"]))
                elif k == 6:
                    t = "ping"
                    c.send(9, b"hello")
                elif k == 7:
                    t = "pong"
                    c.send(10, b"x")
                elif k == 8:
                    s = "\u00fc" * rnd.choice([1, 200, 40000])
                    t = ex(rid, "Alpha", "m2", [s, 1])
                    c.send(1, t.encode())
                    want.append({"method": {"id": rid, "data": s + "-1"}})
                    calls.append(["Alpha", "m2", [s, 1]])
                elif k == 9:
                    t = ex(rid, "aRaw", "get", [])
                    b = t.encode()
                    c.send(1, b[:7], False)
                    c.send(0, b[7:9], False)
                    c.send(0, b[9:])
                    want.append({"method": {"id": rid, "data": 2}})
                    calls.append(["Raw", "get", []])
                else:
                    t = ex(rid, "Alpha", "unknown", [])
                    c.send(1, t.encode())
                    want.append({"error": {"id": rid, "data": None}})
                sent.append(t[:200])
            n = rnd.randrange(5)
            t = ex(900, "Alpha", "iter", [0, n])
            c.send(1, t.encode())
            sent.append(t)
            calls.append(["Alpha", "iter", [0, n]])
            items = [{"stream": {"id": 900, "data": x}} for x in range(n)]
            key = 10000 + rnd_no
            t = ex(901, "Alpha", "tap", [key])
            c.send(1, t.encode())
            sent.append(t)
            calls.append(["Alpha", "tap", [key]])
            t = ex(902, "Alpha", "m0", [])
            c.send(1, t.encode())
            sent.append(t)
            want.append({"method": {"id": 902, "data": 7}})
            calls.append(["Alpha", "m0", []])
            got, pongs = [], 0
            inp = {"messages of one session": sent}
            end = time.time() + 25
            while len(got) < len(want) + len(items) and time.time() < end:
                f = c.recv()
                if f is None or f == "closed":
                    break
                if f[0] == 1:
                    try:
                        j = json.loads(f[1].decode())
                    except ValueError:
                        r.check(False, "a message which is no JSON", inp, "JSON", f[1][:200].decode("utf8", "replace"))
                        continue
                    got.append(j)
                elif f[0] == 10:
                    pongs += 1
                else:
                    r.check(False, "a message which is no text", inp, "text", f[0])
            main = []
            for j in got:
                (kind, body), = j.items()
                if kind == "error":
                    ok = isinstance(body["data"], dict) and set(body["data"]) == {"JsonError"}
                    main.append({"error": {"id": body["id"], "data": None if ok else body["data"]}})
                elif kind == "method":
                    main.append(j)
            r.check(main == want, "the responses of a session", inp, want[-6:], main[-6:])
            r.check([j for j in got if "stream" in j] == items, "the stream items of a session", inp, items, [j for j in got if "stream" in j])
            ob = srv.observe()
            r.check(ob["log"] == calls, "the requests handed to the backend", inp, [x for x in calls][-6:], ob["log"][-6:])
            for x in (5, 6):
                srv.op({"op": "push", "tap": key, "v": x})
            for x in (5, 6):
                f = c.recv()
                r.check(f not in (None, "closed") and f[0] == 1 and json.loads(f[1].decode()) == {"stream": {"id": 901, "data": x}},
                        "an item pushed during a session", inp, x, str(f)[:200])
            # the other session got nothing of all this, and still works
            other.send(1, ex(3, "Alpha", "m1", [41]).encode())
            f = other.recv()
            r.check(f not in (None, "closed") and f[0] == 1 and json.loads(f[1].decode()) == {"method": {"id": 3, "data": 42}},
                    "another session of the same server", "m1(41) on a second connection", 42, str(f)[:200])
            # the session ends when the client goes: its streams stop
            how = rnd.randrange(3)
            if how == 0:
                c.send(8, b"\x03\xe8")
                fr = c.recv()
                while fr not in (None, "closed"):
                    fr = c.recv(3)
                r.check(fr == "closed", "the session does not end after a close message", inp, "closed", str(fr))
            c.s.close()
            srv.observe() if False else None
            dropped = []
            end = time.time() + 10
            while key not in dropped and time.time() < end:
                dropped += srv.observe()["dropped"]
                time.sleep(0.01)
            r.check(key in dropped, "a stream goes on after the end of its session", inp, "stopped", "running")
            other.s.close()
            if len(r.failures) > 4:
                break
    except (EOFError, OSError, RuntimeError) as e:
        r.check(False, "the websocket server does not respond", "a connection", "a session", repr(e))
    finally:
        srv.stop()
    return r.done("pseudo-random websocket sessions of up to 28 messages against a server on the loopback")
