"""Checks of the properties of the derive macro: C01, C02, C03, C04 (derive part), C20."""
import concrete
import derive_check as dc
import gen
import harness
import model
from driver import Task, Battery, Check

TAGS = ["External", "Internal", "Adjacent", "Untagged"]

ASSUME = [
    "models of syn/quote/darling/serde_derive_internals/proc_macro_error (zv/quote_model.py, zv/decl.py): the "
    "declaration's attributes are what serde_derive_internals reports, and ill-formed declarations are rejected by it",
    "contracts of std String/slice/Vec/Option/Iterator/fmt methods (zv/std_models.py)",
    "proc_macro_crate::crate_name resolves the zod crate under its own name",
    "the schema, type and references of a field's type are opaque (ZodType is assumed for them)",
]


def enum_task(k, wanted):
    return Task("enum %s" % TAGS[k], lambda prog, dl: dc.run(
        prog, "enum", wanted, (TAGS[k], lambda ctx, D: ctx.assume(D.tag_kind == k)), dl))


def tasks(kinds, wanted):
    out = []
    if "enum" in kinds:
        out += [enum_task(k, wanted) for k in (1, 2, 0, 3)]
    if "struct" in kinds:
        out.append(Task("struct", lambda prog, dl: dc.run(prog, "struct", wanted, None, dl)))
    if "tuple" in kinds:
        out.append(Task("tuple", lambda prog, dl: dc.run(prog, "tuple", wanted, None, dl)))
    return out


def compare(ds, out, refs, broken, wanted, members=None, ns="Ns"):
    """Failures of the declarations against the specification."""
    fails = []
    for d in ds:
        if d.ident_s in broken:
            if "outcome" in wanted and d.outcome() == "ok":
                fails.append({"what": "the derive does not expand to an implementation", "input": d.rust(),
                              "expected": "an implementation", "actual": broken[d.ident_s]})
            continue
        g = out.get(d.ident_s)
        if g is None:
            continue
        if "outcome" in wanted and d.outcome() == "abort":
            fails.append({"what": "accepted although it should be rejected", "input": d.rust(),
                          "expected": "a compile error", "actual": "accepted"})
            continue
        if g.get("panic"):
            fails.append({"what": "producing the schema or type panics or does not terminate", "input": d.rust(),
                          "expected": "a schema and a type", "actual": "panic"})
            continue
        e = harness.expected(d, refs)
        if "schema" in wanted and not concrete.same_ts(e["schema"], g["schema"]):
            fails.append({"what": "schema", "input": d.rust(), "expected": e["schema"], "actual": g["schema"]})
        if "type" in wanted:
            if not concrete.same_ts(e["type"], g["type"]):
                fails.append({"what": "type", "input": d.rust(), "expected": e["type"], "actual": g["type"]})
            elif g["kind"] == "interface" and not e["interface"]:
                fails.append({"what": "interface for something that is no plain object type", "input": d.rust(),
                              "expected": "type", "actual": "interface"})
        if "refs" in wanted:
            want = {"inline": "%s.%s" % (ns, d.name), "inline_schema": "z.lazy(() => %s.%s)" % (ns, d.name)}
            for k, w in want.items():
                if not concrete.same_ts(w, g[k]):
                    fails.append({"what": k, "input": d.rust(), "expected": w, "actual": g[k]})
            # references to the field types appear, expansions do not
            for k in ("schema", "type"):
                if not concrete.same_ts(e[k], g[k]) and not ("." + k in wanted):
                    fails.append({"what": "references in the " + k, "input": d.rust(), "expected": e[k], "actual": g[k]})
        if "register" in wanted and members is not None:
            mine = [m for m in members if any(
                t == d.name for t in declared_names(m["def"])) and m["ns"] == ns]
            if len(mine) == 0:
                fails.append({"what": "not registered under its exported name", "input": d.rust(),
                              "expected": d.name, "actual": "no such member"})
            elif not any(m["schema"] == g["schema"] for m in mine):
                fails.append({"what": "registered with another schema", "input": d.rust(),
                              "expected": g["schema"], "actual": mine[0]["schema"]})
    return fails


def declared_names(text):
    return [text]


def derive_battery(kinds, wanted):
    def run(seed, tier):
        ds = [d for d in gen.battery(seed, tier) if d.kind in kinds]
        out, refs, members, broken, ns = harness.run_derive(ds)
        for m in members:
            m["def"] = m["member"]
        return {"cases": len(ds) - len(broken), "bound": "fixed corner cases plus pseudo-random declarations (seed %d)" % seed,
                "failures": compare(ds, out, refs, broken, wanted, members, ns), "not_compiled": len(broken)}
    return Battery("derive", run)


def models(refuted):
    """The declarations in the counterexamples of refuted obligations."""
    ds = []
    seen = set()
    for r in refuted:
        for m in r.get("models", []):
            key = repr(m)
            if key in seen or len(ds) >= 40:
                continue
            seen.add(key)
            d = model.to_concrete(m, len(ds))
            if d is not None:
                ds.append(d)
    return ds


def confirm(wanted):
    def go(refuted, log):
        ds = models(refuted)
        if not ds:
            return []
        if "outcome" in wanted:
            fails = outcome_failures(ds, "replay")
            log.append("%d models replayed, %d fail" % (len(ds), len(fails)))
            return fails
        out, refs, members, broken, ns = harness.run_derive(ds, "replay")
        for m in members:
            m["def"] = m["member"]
        fails = compare(ds, out, refs, broken, wanted, members, ns)
        log.append("%d models replayed, %d do not compile, %d fail" % (len(ds), len(broken), len(fails)))
        return fails
    return go


def outcome_failures(ds, name="rejects"):
    fails = []
    said = harness.diagnose(ds, name)
    for d in ds:
        msgs = said[d.ident_s]
        panic = [m for m in msgs if "panicked" in m]
        if panic:
            fails.append({"what": "internal panic of the derive", "input": d.rust(), "expected": d.outcome(), "actual": panic[0]})
        elif d.outcome() == "abort" and not msgs:
            fails.append({"what": "accepted although it should be rejected", "input": d.rust(),
                          "expected": "a diagnostic of the derive", "actual": "accepted"})
        elif d.outcome() == "ok" and msgs:
            fails.append({"what": "rejected although it should be accepted", "input": d.rust(),
                          "expected": "an implementation", "actual": msgs[0]})
    return fails


def reject_battery(seed, tier):
    """Every short tuple struct and the enums without readable variants: rejected with a diagnostic or accepted."""
    F, V, D = concrete.CField, concrete.CVariant, concrete.CDecl
    ds = [
        D("enum", "Q0", variants=[]),
        D("enum", "Q1", variants=[V("A", skip="skip")]),
        D("enum", "Q2", variants=[V("A", skip="skip"), V("B", "Tuple", [F(None, "u8")], skip="skip_deserializing")], tag="t", content="c"),
        D("enum", "Q3", variants=[V("A", "Struct", [F("a", "u8")], skip="skip")], tag="t"),
        D("enum", "Q4", variants=[V("A", skip="skip_deserializing")], untagged=True),
        D("enum", "Q5", variants=[V("A", skip="skip"), V("B")], untagged=True),
    ]
    forms = [{}, {"default": "default"}, {"skip": "skip"}, {"skip": "skip_serializing"}]
    import itertools
    k = 0
    for n in (1, 2, 3, 4):
        fs = forms if n < 4 else forms[:3]
        for combo in itertools.product(fs, repeat=n):
            ds.append(D("tuple", "R%d" % k, fields=[F(None, "u8", **kw) for kw in combo]))
            k += 1
    d = {"default": "default"}
    for n in (5, 9, 13, 17, 25, 33, 40):        # long ones: no, one and several defaults before, at and after the end
        for lead in sorted({0, 1, n // 2, n - 2, n - 1}):
            for tail in ([{}], [d], [d, {}], [{}, d], [d, d]):
                combo = [{}] * lead + [d] * (n - lead) if tail == [d] else [d if i < lead else {} for i in range(n)] if tail == [{}] else \
                    [{}] * lead + [d] * (n - lead - 1) + [tail[-1]] if tail != [{}, d] else [{}] * (n - 1) + [d]
                ds.append(D("tuple", "R%d" % k, fields=[F(None, "u8", **kw) for kw in combo]))
                k += 1
    return {"cases": len(ds), "bound": "all tuple structs with up to 4 elements of 4 forms and long ones, enums without readable variants",
            "failures": outcome_failures(ds)}


def c01():
    w = ["schema"]
    return Check("C01", tasks(("struct", "tuple"), w), [derive_battery(("struct", "tuple"), w)], confirm(w), ASSUME)


def c02():
    w = ["schema"]
    return Check("C02", tasks(("enum",), w), [derive_battery(("enum",), w)], confirm(w), ASSUME)


def c03():
    w = ["type"]
    k = ("struct", "tuple", "enum")
    return Check("C03", tasks(k, w), [derive_battery(k, w)], confirm(w), ASSUME)


def c20():
    w = ["outcome"]
    k = ("struct", "tuple", "enum")
    return Check("C20", tasks(k, w), [derive_battery(k, w), Battery("rejected declarations", reject_battery)],
                 confirm(w), ASSUME)


def c04():
    import p_core
    import p_rpc
    import rpc_battery
    w = ["refs", "register"]
    k = ("struct", "tuple", "enum")
    return Check("C04", tasks(k, w) + [Task("builtins", p_core.references), Task("RpcMember::decl", p_rpc.references_task)],
                 [derive_battery(k, w), Battery("recursion", p_core.recursion_battery),
                  Battery("nestings", p_core.nesting_battery(("inline", "inline_schema"))),
                  Battery("RPC arguments", rpc_battery.references_battery)], confirm(w), ASSUME)
