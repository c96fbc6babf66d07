"""Obligations about what the derive macro emits for an arbitrary declaration."""
import os
import time
import traceback
import z3
from core import *
from interp import FCtx, Env
from rparse import P, HOLE_IDS
import decl
import grammar
import derive_run as dr
import spec as spec_mod
import ts
from ts import Mismatch
import model as model_mod


class Rec:
    """Outcome of one named obligation."""

    def __init__(self, name):
        self.name = name
        self.vcs = 0
        self.failed = []       # (message, definite, model)
        self.undecided = []
        self.props = None

    def status(self):
        if any(d for _, d, _ in self.failed):
            return "refuted"
        if self.failed or self.undecided:
            return "undecided"
        return "proved" if self.vcs else "vacuous"

    def dump(self):
        return {"name": self.name, "status": self.status(), "vcs": self.vcs,
                "detail": [m for m, _, _ in self.failed][:5] + self.undecided[:5],
                "models": [m for _, _, m in self.failed if m is not None][:6]}


def abort_allowed(sp, D):
    """The declarations the derive rejects with a diagnostic."""
    b, ctx = sp.b, sp.ctx
    if D.kind == "enum":
        return sp.empty()
    if D.kind != "tuple" or b(D.transparent) or b(D.base.n == 1):
        return False
    opt = compose(ctx, D.field_seq(), lambda f: [One(f)] if sp.read(f) and b(f.has_default) else [])
    f, _ = ctx.first(opt)
    if f is None:
        return False
    later = compose(ctx, D.field_seq(), lambda g: [One(g)] if b(g.args[0] > f.args[0]) and sp.read(g)
                    and not b(g.has_default) else [])
    return b(ctx.nonempty(later))


def struct_default(it, D):
    pass


def registrations(it, em):
    """Values of the inventory::submit! items the derive emitted."""
    out = []
    for d in em.mod.items.get("macro!", []):
        if d.name != "submit":
            continue
        e = P(list(d.node.toks)).expr()
        fc = FCtx(em.mod)
        out.append(it.deref(it.eval(e, Env(), fc)))
    return out


HOLES_OK = ("inline_schema", "inline", "key", "strlit", "ns_name", "cname")


def hole_names(it, s, out):
    for p in s.parts:
        if isinstance(p, Hole):
            out.add(p.fn)
        elif isinstance(p, Join):
            for q in p.seq.parts:
                if isinstance(q, One):
                    hole_names(it, it.m.to_s(q.v), out)
                else:
                    def go(q=q):
                        e = it.ctx.new_elem(q.base, "h")
                        got = set()
                        for x in q.body(e):
                            if isinstance(x, One):
                                hole_names(it, it.m.to_s(x.v), got)
                            else:
                                raise Unsupported("nested list")
                        return got
                    for _, k, v in it.ctx.explore(go):
                        if k == "ok":
                            out |= v
    return out


def injective(it, s, name, shown):
    """s determines the name: equal values of s only for equal names."""
    holes = [p for p in s.parts if not isinstance(p, str)] if s is not None else []
    if len(holes) == 1 and repr(S(holes[0])) == repr(name):
        return
    if len(holes) == 1 and isinstance(holes[0], Join) and holes[0].sep in ("", None):
        ps = it.ctx.norm(holes[0].seq)
        if len(ps) == 1 and isinstance(ps[0], Comp) and ps[0].base.fn == "bytes<%r>" % (name,):
            def one():
                e = it.ctx.new_elem(ps[0].base, "b")
                xs = ps[0].body(e)
                h = it.m.to_s(xs[0].v).parts if len(xs) == 1 and isinstance(xs[0], One) else ()
                b = z3.Function("byte:" + ps[0].base.fn, z3.IntSort(), z3.IntSort())(e.idx)
                # two hex digits per byte: all of the same length, all different
                if len(h) != 1 or not isinstance(h[0], Hole) or h[0].fn not in ("02x", "02X") or not it.ctx.must(h[0].args[0] == b):
                    raise Mismatch("the guard drops bytes of the exported name", False)
            for _, k, v in it.ctx.explore(one):
                if k != "ok":
                    raise Mismatch("%s in the name of the guard" % k, False)
            return
    raise Mismatch("the guard is named %s instead of the exported name" % shown)


def run(prog, kind, wanted, part=None, deadline=None, idents=None):
    """wanted: subset of outcome, schema, type, refs, register, docs, wf."""
    t0 = time.time()
    q0 = dict(STATS)
    label = {"struct": "struct with named fields", "tuple": "tuple struct", "enum": "enum"}[kind]
    if part is not None:
        label += " (%s)" % part[0]
    recs = {w: Rec("%s: %s" % (label, w)) for w in wanted}
    it, D = dr.make(prog, kind, deadline)
    ctx = it.ctx
    T = ts.TS(it)
    T.model = lambda: model_mod.extract(ctx, D)
    reach = [0]

    def attempt(w, fn):
        if w not in recs:
            return
        r = recs[w]
        try:
            fn()
            r.vcs += 1
        except Mismatch as m:
            mod = getattr(m, "model", None) or T.model()
            r.failed.append(("%s" % m.msg, m.definite, mod))
        except Panic as e:
            r.failed.append(("panic: %s" % e.msg, True, T.model()))
        except Abort as e:
            r.failed.append(("diagnostic: %s" % e.msg, True, T.model()))
        except Unsupported as e:
            if os.environ.get("ZV_TRACE"):
                traceback.print_exc()
            r.undecided.append("unsupported: %s" % e)

    def go():
        D.assume()
        if part is not None:
            part[1](ctx, D)
        sp = spec_mod.Spec(ctx, D)
        try:
            toks = dr.expand(it, prog, "zod", [TokV([])])
        except Abort as e:
            reach[0] += 1

            def chk():
                if not abort_allowed(sp, D):
                    raise Mismatch("rejected: %s" % e.msg)
            attempt("outcome", chk)
            return
        except Panic as e:
            reach[0] += 1
            for w in recs:
                if w == "outcome":
                    recs[w].failed.append(("internal panic: %s" % e.msg, True, T.model()))
            return
        reach[0] += 1

        def ok_():
            if abort_allowed(sp, D):
                raise Mismatch("accepted although it should be rejected")
        attempt("outcome", ok_)
        if abort_allowed(sp, D):
            return
        em = dr.Emitted(it, toks.toks)

        def schema():
            T.equal(it.m.to_s(em.call("ZodType", "schema")), sp.schema())
        attempt("schema", schema)

        def type_():
            v = it.m.force_enum(em.call("ZodType", "type_def"))
            if v.variant == "Interface" and not sp.may_be_interface():
                raise Mismatch("declared as an interface but is no plain object type")
            T.equal(it.m.to_s(v.payload[0]), sp.type_def())
        attempt("type", type_)

        def refs():
            nsn = S(Hole("ns_name", ("nspath",)))
            T.equal(it.m.to_s(em.call("ZodType", "inline_schema")), S("z.lazy(() => ", nsn, ".", D.name, ")"))
            T.equal(it.m.to_s(em.call("ZodType", "inline")), S(nsn, ".", D.name))
            got = set()
            hole_names(it, it.m.to_s(em.call("ZodType", "schema")), got)
            v = it.m.force_enum(em.call("ZodType", "type_def"))
            hole_names(it, it.m.to_s(v.payload[0]), got)
            bad = got - set(HOLES_OK)
            if bad:
                raise Mismatch("a field is not mentioned by its reference: %s" % sorted(bad))
        attempt("refs", refs)

        def wf():
            G = grammar.Grammar(it)
            G.is_schema(it.m.to_s(em.call("ZodType", "schema")))
            G.is_schema(it.m.to_s(em.call("ZodType", "inline_schema")))
            G.is_type(it.m.to_s(em.call("ZodType", "inline")))
            v = it.m.force_enum(em.call("ZodType", "type_def"))
            (G.is_object_type if v.variant == "Interface" else G.is_type)(it.m.to_s(v.payload[0]))
        attempt("wf", wf)

        def register():
            rs = registrations(it, em)
            if len(rs) != 1:
                raise Mismatch("%d registrations" % len(rs))
            m = rs[0]
            if not isinstance(m, StructV):
                raise Unsupported("registration value")
            fields = dict(m.fields)
            nsn = S(Hole("ns_name", ("nspath",)))

            def acc(name):
                d = it.find_method_defn(m, name)
                return it.call_defn(d, [m])
            T.strict(it.m.to_s(it.m.method(m, "namespace", [], None, None)), nsn)
            T.strict(it.m.to_s(it.m.method(m, "name", [], None, None)), D.name)
            T.equal(it.m.to_s(it.m.method(m, "schema", [], None, None)), sp.schema())
            v = it.m.force_enum(it.m.method(m, "type_def", [], None, None))
            T.equal(it.m.to_s(v.payload[0]), sp.type_def())
        attempt("register", register)

        def guard():
            """Two types with the same exported name cannot be registered in one namespace."""
            hits = []
            for im in em.impls:
                if im.trait is None and im.ty.kind in ("thole", "path"):
                    hits.append(im)
            names = [n for im in hits for n in im.consts]
            if len(hits) != 1 or len(names) != 1:
                raise Unsupported("no registration guard found")
            t = repr(it.type_val(hits[0].ty, FCtx(em.mod)))
            if "nsident" not in t:
                raise Mismatch("the guard is not an item of the namespace: %s" % t)
            injective(it, HOLE_IDS.get(names[0]), D.name, names[0])
        attempt("guard", guard)

        def docs():
            v = it.m.force_enum(em.call("ZodType", "docs"))
            if v.variant != "Some":
                raise Mismatch("docs() is None")
            T.strict(it.m.to_s(v.payload[0]), S(Hole("docs_of_attrs")))
        attempt("docs", docs)

    err = None
    try:
        ctx.explore(go)
    except Unsupported as e:
        err = "unsupported: %s" % e
    except RecursionError:
        err = "recursion limit"
    except Exception as e:
        err = "internal error: %r at %s" % (e, traceback.format_exc(limit=-3)[-600:])
    if err is None and reach[0] == 0:
        err = "no path reaches the end (vacuous)"
    if err is not None:
        for r in recs.values():
            r.undecided.append(err)
    return {"records": [r.dump() for r in recs.values()], "used": dict(it.used),
            "queries": STATS["queries"] - q0["queries"], "solver_s": STATS["time"] - q0["time"],
            "wall": time.time() - t0, "paths": reach[0]}
