"""C19: everything which is emitted is well-formed TypeScript.

The texts which the real code emits, for an arbitrary declaration, RPC member or backend, are read by the recogniser of
grammar.py; what stands for another emitted text is assumed to be of the class which the obligation of that text shows
(induction over the depth of types)."""
import z3
import gen
import grammar
import harness
import p_core
import p_derive
import p_docs
import p_reg
import p_rpc
import rpc_battery as RB
import strings
from core import *
from driver import Task, Battery, Check
from p_core import runner
from ts import Mismatch

IntS = z3.IntSort()


def derive_tasks():
    return p_derive.tasks(("struct", "tuple", "enum"), ["wf"])


def builtins_task(prog, deadline):
    def body(it, attempt):
        found = p_core.impls(prog, it)
        if len(found) < 30:
            raise Unsupported("built-in implementations")
        for n in sorted(found):
            def check(n=n):
                k = 0
                for t, a in found[n]:
                    G = grammar.Grammar(it)
                    for v in ("schema", "inline_schema", "type_def", "inline"):
                        x = p_core.text(it, t, v)
                        (G.is_schema if v in ("schema", "inline_schema") else G.is_type)(x)
                        k += 1
                return k
            attempt("%s: schemas are expressions, types are types" % n, check)
    return runner(prog, deadline, body)


def strings_task(prog, deadline):
    """The helpers which quote names."""
    def body(it, attempt):
        def check():
            got = strings.prove(prog)
            for want in ("strlit", "key"):
                if not any(n == want for n, _ in got.values()):
                    raise Mismatch("no function is known to make a %s of every string: %s" % (
                        {"strlit": "literal", "key": "key"}[want], "; ".join(str(w) for _, w in got.values())[:400]), False)
            return len(got)
        attempt("names become literals and keys which denote exactly them, whatever characters they hold", check)
    return runner(prog, deadline, body)


def decl_task(prog, deadline):
    def body(it, attempt):
        it.trait_models["ZodType"] = p_rpc.view_model
        G = grammar.Grammar(it, {"member_name": "rust", "arg_name": "rust"})
        for variant in ("Method", "Stream"):
            def check(variant=variant):
                n = 0

                def go():
                    got, base = p_rpc.decl_text(it, prog, variant)
                    G.is_module(got)
                for conds, kind, r in it.ctx.explore(go):
                    if kind != "ok":
                        raise Mismatch("%s: %s" % (kind, r))
                    n += 1
                return n
            attempt("%s: the function is a complete declaration whose names are not reserved" % variant, check)
    return runner(prog, deadline, body)


def client_task(prog, deadline):
    def body(it, attempt):
        w = p_reg.World(it, prog)
        B, C = ("obj", Obj("B")), ("obj", Obj("C"))
        gen = p_rpc.one_fn(prog, "Backend::generate_with_options")
        G = grammar.Grammar(it, {"reg_ns": "ident", "rpc_ns": "ident", "map_key": "ident"})

        def is_object(h):
            return h.fn == "type_def" and h.args[0] == "RegTy" and \
                it.ctx.must(z3.Function("is_interface", IntS, z3.BoolSort())(h.args[1]))
        G.is_object = is_object

        def whole():
            def run():
                G.is_module(it.m.to_s(it.deref(it.call_defn(gen, [p_reg.options(it, prog)], B, None, None, [C]))))
            return p_reg.outcomes(it, run)
        attempt("the client is a sequence of complete namespace blocks of complete declarations", whole)
    return runner(prog, deadline, body)


def forms_battery(seed, tier):
    """The texts of real declarations, read by the TypeScript parser."""
    n, fails, broken = forms(gen.battery(seed, tier), "battery")
    return {"cases": n, "bound": "the declarations of the derive battery (seed %d)" % seed, "failures": fails,
            "not_compiled": len(broken)}


def confirm(refuted, log):
    ds = p_derive.models(refuted)
    if not ds:
        return []
    n, fails, broken = forms(ds, "replay")
    log.append("%d models replayed, %d do not compile, %d fail" % (len(ds), len(broken), len(fails)))
    return fails


def forms(ds, name):
    out, refs, _, broken, _ = harness.run_derive(ds, name)
    jobs, who = [], []
    for d in ds:
        g = out.get(d.ident_s)
        if g is None or g.get("panic"):
            continue
        try:
            want = harness.expected(d, refs)
        except (Unsupported, Mismatch):
            want = None
        for part, kind in (("schema", "expr"), ("inline_schema", "expr"), ("type", g["kind"]), ("inline", "type")):
            jobs.append((kind, g[part]))
            w = want.get(part) if want else None
            jobs.append((kind, w if w is not None else g[part]))
            who.append((d, part, w is not None))
    res = RB.client_js([{"forms": jobs}])[0]
    if "forms" not in res:
        raise RuntimeError("node: %s" % res.get("error"))
    fails = []
    for k, (d, part, known) in enumerate(who):
        text = jobs[2 * k][1]
        f, w = res["forms"][2 * k:2 * k + 2]
        if f["bad"]:
            fails.append({"what": "%s is not well-formed: %s" % (part, "; ".join(f["bad"])[:200]), "input": d.rust(),
                          "expected": "one complete %s" % jobs[2 * k][0], "actual": text})
        elif known and not w["bad"]:
            for x in ("keys", "literals"):
                if not set(f[x]) <= set(w[x]):
                    fails.append({"what": "the %s of %s" % (x, part), "input": d.rust(), "expected": w[x], "actual": f[x]})
    return len(who), fails, broken


def modules_battery(seed, tier):
    """Complete clients, with the shipped prelude, read by the TypeScript parser."""
    r = RB.Report()
    exe, v = RB.views_or_fail(r)
    if v is None:
        return r.done("-")
    names = list(RB.BACKENDS)
    texts = [v["backend"][b][k] for b in names for k in ("ws_client", "client")]
    texts = [t[len("<<client>>"):] if t.startswith("<<client>>") else t for t in texts]
    for (b, k), t, s in zip([(b, k) for b in names for k in ("ws_client", "client")], texts, RB.struct_of(v, texts)):
        r.check(s and not s["diags"], "the generated client does not parse", b, "TypeScript", s and s["diags"][:3])
        if s and k == "client":
            r.check(all(x.get("ns") for x in s["blocks"]), "the client is more than namespace blocks", b, "namespace blocks", s["blocks"][:3])
        for x in (s["blocks"] if s else []):
            for i in x.get("items", []):
                ok = i["kind"] in ("const", "type", "interface") or i["kind"] == "function" and i["complete"]
                r.check(ok, "an incomplete declaration", "%s %s" % (b, x.get("ns")), "a declaration", i)
                n = i.get("name")
                r.check(n is None or n not in grammar.RESERVED, "a declaration has a reserved name", "%s %s" % (b, x.get("ns")), "another name", n)
                for p in i.get("params", []):
                    r.check(p[0] not in grammar.RESERVED, "a parameter has a reserved name", "%s.%s" % (x.get("ns"), n), "another name", p[0])
    return r.done("the three backends of battery/rpc/main.rs")


ASSUME = [
    "namespace names, exported names and the user's prefixes and suffixes are TypeScript identifiers (the property's precondition)",
    "the texts of other types inside of a text are well-formed (induction over the depth of types; a recursive type "
    "refers to itself by name)",
    "grammar.py accepts only TypeScript (a recogniser of the constructs which are emitted; batteries compare with the TypeScript parser)",
    "doc comments are closed comments (obligations of C16, discharged here too)",
]


def c19():
    return Check("C19", [Task("names are quoted", strings_task), Task("built-in types", builtins_task)] + derive_tasks()
                 + [Task("declarations of RPC members", decl_task), Task("complete clients", client_task), Task("doc comments", p_docs.docs_task)],
                 [Battery("declarations read by the TypeScript parser", forms_battery),
                  Battery("clients read by the TypeScript parser", modules_battery)], confirm, p_core.ASSUME + p_rpc.ASSUME + ASSUME)
