"""Builds and runs programs against the real crate (/repo), and compares what they print with the
specification evaluated on the same declarations."""
import json
import os
import re
import shutil
import subprocess
import hashlib
from core import *
import concrete
import spec as spec_mod

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, ".build")
REPO = "/repo"

CARGO = """[package]
name = "%s"
version = "0.0.0"
edition = "2021"

[workspace]

[dependencies]
zod = { path = "/repo" }
serde = { version = "1", features = ["derive"] }
serde_json = "1"
tokio = { version = "1", features = ["full"] }
futures = "0.3"
async-trait = "0.1"
axum = "0.6"

[profile.dev]
debug = false
"""

LOCK_SOURCES = [os.path.join(ROOT, "battery", "Cargo.lock")]


class BuildError(Exception):
    def __init__(self, msg, errors):
        self.errors = errors          # list of (file, line, message)
        super().__init__(msg)


def project(name, files):
    d = os.path.join(BUILD, name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    put(os.path.join(d, "Cargo.toml"), CARGO % name)
    lock = os.path.join(d, "Cargo.lock")
    for src in LOCK_SOURCES:
        if os.path.exists(src):
            put(lock, open(src).read().replace('name = "battery"', 'name = "%s"' % name))
            break
    keep = set()
    for f, text in files.items():
        p = os.path.join(d, "src", f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        put(p, text)
        keep.add(os.path.abspath(p))
    for base, _, fs in os.walk(os.path.join(d, "src")):
        for f in fs:
            p = os.path.abspath(os.path.join(base, f))
            if p not in keep:
                os.remove(p)
    return d


def put(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)


TARGET = "target"


def profile_dependent():
    """Whether the sources under test ask for the build profile anywhere but in the attributes and the build
    script which keep the type overview out of builds without debug assertions."""
    for base, ds, fs in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ("target", ".git", "tests", "examples")]
        for f in fs:
            if f.endswith(".rs") and f != "build.rs":
                text = open(os.path.join(base, f), errors="replace").read()
                text = re.sub(r"#\[cfg\(debug_assertions\)\]\s*pub mod docs;", "", text)
                text = re.sub(r"#!\[cfg_attr\(\s*debug_assertions,\s*doc\b", "", text)
                if "debug_assert" in text:
                    return True
    return False


class Profile:
    """Builds within it are without debug assertions, as release builds are."""

    def __enter__(self):
        global TARGET
        TARGET = "target-release"

    def __exit__(self, *a):
        global TARGET
        TARGET = "target"


def sources():
    h = hashlib.sha256()
    for base, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
        for f in sorted(fs):
            p = os.path.join(base, f)
            if os.path.isfile(p):
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def forget_stale():
    """cargo goes by modification times; this goes by contents: when the sources under test differ from
    those of the last build here, cargo's record of having built them is removed."""
    stamp = os.path.join(BUILD, TARGET, "sources")
    now = sources()
    if os.path.exists(stamp) and open(stamp).read() == now:
        return
    fp = os.path.join(BUILD, TARGET, "debug", ".fingerprint")
    for x in os.listdir(fp) if os.path.isdir(fp) else []:
        if re.match(r"zod(-core|-derive)?-[0-9a-f]+$", x):
            shutil.rmtree(os.path.join(fp, x), ignore_errors=True)
    os.makedirs(os.path.dirname(stamp), exist_ok=True)
    put(stamp, now)


def cargo_build(d, name, timeout=600):
    forget_stale()
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, TARGET)
    env["CARGO_NET_OFFLINE"] = "true"
    env["RUSTFLAGS"] = "-Awarnings"
    if TARGET != "target":
        for k in ("DEBUG_ASSERTIONS", "OVERFLOW_CHECKS", "BUILD_OVERRIDE_DEBUG_ASSERTIONS", "BUILD_OVERRIDE_OVERFLOW_CHECKS"):
            env["CARGO_PROFILE_DEV_" + k] = "false"
    p = subprocess.run(["cargo", "build", "--offline", "--message-format=json", "-q"], cwd=d, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if p.returncode != 0:
        errs = []
        for line in p.stdout.decode("utf8", "replace").splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            tgt = m.get("target", {}).get("name")
            spans = []

            def walk(sp):
                spans.append((sp["file_name"], sp["line_start"]))
                if sp.get("expansion"):
                    walk(sp["expansion"]["span"])
            for sp in m["message"]["spans"]:
                walk(sp)
            errs.append((tgt, spans, m["message"]["message"]))
        raise BuildError("; ".join(sorted(set(e[2] for e in errs)))[:600] or p.stderr.decode("utf8", "replace")[-2000:], errs)
    return os.path.join(BUILD, TARGET, "debug", name)


PRELUDE = """#![allow(dead_code, unused_imports, unused_variables, non_camel_case_types, non_snake_case)]
use zod::ZodType;
#[derive(zod::Namespace)]
pub struct Ns;
pub fn dflt<T>() -> T { unimplemented!() }
pub fn never<T>(_: &T) -> bool { false }

#[derive(serde::Deserialize, zod::Zod, Default)]
#[zod(namespace = "Ns")]
pub struct Other { o: u8 }

#[derive(serde::Deserialize, zod::Zod)]
#[zod(namespace = "Ns")]
#[serde(rename = "Exported")]
pub struct Renamed { r: u8 }

#[derive(serde::Deserialize, zod::Zod)]
#[zod(namespace = "Ns")]
pub struct Wrapped(String);

#[derive(serde::Deserialize, zod::Zod, Default)]
#[zod(namespace = "Ns")]
pub struct Inner1 { i1: u8 }
#[derive(serde::Deserialize, zod::Zod, Default)]
#[zod(namespace = "Ns")]
pub struct Inner2 { i2: String }
#[derive(serde::Deserialize, zod::Zod, Default)]
#[zod(namespace = "Ns")]
pub struct Inner3 { i3: Option<u8>, other: u8 }

fn def(t: zod::TsTypeDef) -> (String, String) {
    match t {
        zod::TsTypeDef::Interface(x) => (String::from("interface"), x),
        zod::TsTypeDef::Type(x) => (String::from("type"), x),
    }
}

fn report<T: ZodType>(name: &str) {
    let r = std::panic::catch_unwind(|| {
        let (kind, ty) = def(T::type_def());
        serde_json::json!({"name": name, "schema": T::schema(), "kind": kind, "type": ty,
            "inline_schema": T::inline_schema(), "inline": T::inline().to_string(), "docs": T::docs(),
            "declared": T::type_def().to_string(), })
    });
    match r {
        Ok(v) => println!("{}", v),
        Err(_) => println!("{}", serde_json::json!({"name": name, "panic": true})),
    }
}

fn refs<T: ZodType>(name: &str) {
    println!("{}", serde_json::json!({"ref": name, "inline_schema": T::inline_schema(), "inline": T::inline().to_string()}));
}
"""


def derive_program(decls):
    main = [PRELUDE]
    types = sorted(set(t for d in decls for t in d.types()))
    files = {}
    for d in decls:
        m = "m_" + d.ident_s.lower()
        main.append("mod %s;" % m)
        files[m + ".rs"] = "use super::*;\n" + d.rust() + "pub fn run() { report::<%s>(%s); }\n" % (
            d.ident_s, concrete.rs(d.ident_s))
    main.append("fn main() {\n    let only = std::env::args().nth(1);\n    std::panic::set_hook(Box::new(|_| {}));\n    println!(\"{}\", serde_json::json!({\"ns\": <Ns as zod::Namespace>::NAME}));")
    for t in types:
        main.append("    refs::<%s>(%s);" % (t, concrete.rs(t)))
    for d in decls:
        main.append("    if only.as_deref().unwrap_or(%s) == %s { m_%s::run(); }" % (
            concrete.rs(d.ident_s), concrete.rs(d.ident_s), d.ident_s.lower()))
    main.append("    for m in zod::__private::inventory::iter::<zod::NamespaceMemberDefinition> {")
    main.append("        println!(\"{}\", serde_json::json!({\"member\": m.name(), \"ns\": m.namespace(), \"def\": m.type_def().to_string(), \"schema\": m.schema()}));")
    main.append("    }\n}")
    files["main.rs"] = "\n".join(main) + "\n"
    return files


def diagnose(decls, name="rejects"):
    """{ident: messages the derive itself adds}: every declaration is compiled with and without the derive
    (the build stops after macro expansion if anything is rejected there)."""
    main = [PRELUDE]
    files = {}
    for d in decls:
        text = d.rust()
        assert ", zod::Zod" in text
        bare = text.replace(", zod::Zod", "").replace('#[zod(namespace = "Ns")]\n', "")
        for p, t in (("w", text), ("n", bare)):
            m = "%s_%s" % (p, d.ident_s.lower())
            main.append("mod %s;" % m)
            files[m + ".rs"] = "use super::*;\n" + t
    main.append("fn main() {}")
    files["main.rs"] = "\n".join(main) + "\n"
    d = project(name, files)
    msgs = {}
    try:
        cargo_build(d, name)
    except BuildError as e:
        for tgt, spans, msg in e.errors:
            for fn, line in spans:
                m = re.search(r"([wn]_\w+)\.rs$", fn)
                if m:
                    msgs.setdefault(m.group(1), set()).add(msg)
        if not msgs:
            raise
    out = {}
    for d in decls:
        k = d.ident_s.lower()
        out[d.ident_s] = sorted(msgs.get("w_" + k, set()) - msgs.get("n_" + k, set()))
    return out


def run_derive(decls, name="battery"):
    """{ident: report}, refs, members, {ident: compile error}"""
    decls = list(decls)
    broken = {}
    for _ in range(6):
        d = project(name, derive_program(decls))
        try:
            exe = cargo_build(d, name)
            break
        except BuildError as e:
            bad = {}
            for tgt, spans, msg in e.errors:
                for fn, line in spans:
                    m = re.search(r"m_(\w+)\.rs$", fn)
                    if m:
                        bad.setdefault(m.group(1), msg)
            hit = [x for x in decls if x.ident_s.lower() in bad]
            if not hit:
                raise
            for x in hit:
                broken[x.ident_s] = bad[x.ident_s.lower()]
            decls = [x for x in decls if x.ident_s not in broken]
    else:
        raise BuildError("too many rounds", [])
    texts, crashed = run_exe(exe, decls)
    out, refs, members = {}, {}, []
    for x in crashed:
        out[x] = {"name": x, "panic": True}
    ns = None
    for line in texts.split("\n"):
        if not line.strip():
            continue
        j = json.loads(line)
        if "ref" in j:
            refs[("inline_schema", "rust:" + j["ref"])] = j["inline_schema"]
            refs[("inline", "rust:" + j["ref"])] = j["inline"]
        elif "member" in j:
            members.append(j)
        elif "name" in j:
            out[j["name"]] = j
        elif "ns" in j:
            ns = j["ns"]
    return out, refs, members, broken, ns


def run_exe(exe, decls):
    """Output of the battery program; declarations which crash it are run apart."""
    def go(args, timeout):
        try:
            p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            return -1, ""
        return p.returncode, p.stdout.decode("utf8", "replace")
    rc, text = go([], 120)
    if rc == 0:
        return text, []
    crashed, texts = [], []
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for d, (rc, text) in zip(decls, ex.map(lambda d: go([d.ident_s], 20), decls)):
            # the listing of all registered items may crash although the item itself does not
            lines = [l for l in text.split("\n") if l.endswith("}")]
            if rc != 0 and not any('"name":%s' % json.dumps(d.ident_s) in l.replace(" ", "") for l in lines):
                crashed.append(d.ident_s)
            texts.append("\n".join(lines))
    if len(crashed) == len(decls):
        raise BuildError("the battery program fails on every declaration", [])
    return "\n".join(texts), crashed


def expected(d, refs):
    """Texts the specification demands for a concrete declaration."""
    ctx = Ctx()
    sp = spec_mod.Spec(ctx, d)
    r = dict(refs)
    if d.from_s:
        for fn in ("inline_schema", "inline"):
            r[(fn, "fromty")] = refs[(fn, "rust:" + d.from_s)]
    if d.try_s:
        for fn in ("inline_schema", "inline"):
            r[(fn, "tryfromty")] = refs[(fn, "rust:" + d.try_s)]
    pr = concrete.Printer(r)
    return {"schema": pr.text(sp.schema()), "type": pr.text(sp.type_def()), "interface": sp.may_be_interface()}
