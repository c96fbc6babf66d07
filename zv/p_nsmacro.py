"""What the namespace macro emits for an arbitrary impl block (C09)."""
import z3
from core import *
from interp import FCtx, Env
from rlex import Tok
from rparse import P, HOLE_IDS
from decl import zf
import decl
import derive_check as dc
import derive_run as dr
import ts
from ts import Mismatch
from p_core import runner
from p_macro import paths
import p_rpc

IntS = z3.IntSort()
ITEM_KINDS = ["Method", "Const", "Type", "Macro", "Verbatim"]
PAT_KINDS = ["Ident", "Wild", "Tuple", "Struct", "TupleStruct", "Reference", "Type", "Verbatim"]


def ident(fn, *args):
    return Ident(S(Hole(fn, args)))


class Block:
    """An arbitrary `impl Ty { .. }`: any number of items, any signatures."""

    def __init__(self, it):
        self.it = it
        self.base = Base("items", (), None)
        self.self_ty = TypeV(("obj", Obj("selfty")))
        it.ctx.assume(self.base.n >= 0)

        def meth(it, v, name, getargs, n, place):
            if name == "$macro" and v.name == "parse_macro_input":
                return self.ast()
            if isinstance(v, Obj) and v.kind in ("Pat", "spanned") and name == "span":
                return Obj("span")
            if isinstance(v, Obj) and v.kind == "attrpath" and name == "is_ident":
                a = self.it.m.to_s(getargs()[0]).const()
                if a is not None:
                    return zf("%s_is:%s" % (v.args[0], a), list(v.args[1:]))
            return NotImplemented
        it.extra_methods.append(meth)
        before = it.m.ext_assoc

        def assoc(t, trait, name, fc, n):
            x = HOLE_IDS.get(name)
            if x is not None and tyrep(t) == "selfty":
                return Obj("fnpath", ("selfty", repr(x)))
            return before(t, trait, name, fc, n)
        it.m.ext_assoc = assoc
        it.overrides["ZodType"] = zod_model
        it.overrides["Namespace"] = ns_model

    def attrs(self, tag, *args):
        """Any attributes."""
        b = Base(tag, args, None)
        self.it.ctx.fact_path(b.n >= 0)
        return SeqV([Comp(b, lambda e: [One(Obj("Attribute", (tag,) + args + (e.idx,),
                                            {"fields": {"path": Obj("attrpath", (tag,) + args + (e.idx,))}}))], True)], "vec")

    def args_base(self, i):
        return Base("margs", (i,), None)

    # facts about method i
    def is_method(self, i):
        return zf("item_kind", [i], IntS) == 0

    def has_recv(self, i):
        return zf("m_recv", [i])

    def ast(self):
        items = SeqV([Comp(self.base, lambda e: [One(self.item(e.idx))], True)], "vec")
        return StructV("ItemImpl", {"attrs": self.attrs("impl_attrs"), "self_ty": self.self_ty, "items": items, "trait_": NONE,
                                    "generics": Obj("generics")})

    def item(self, i):
        k = zf("item_kind", [i], IntS)
        self.it.ctx.fact_path(z3.And(k >= 0, k < len(ITEM_KINDS)))
        return SymEnum("ImplItem", k, [("Method", lambda: (self.method(i),))] +
                       [(n, lambda: (Obj("item", (i,)),)) for n in ITEM_KINDS[1:]])

    def method(self, i):
        sig = StructV("Signature", {
            "ident": ident("m_ident", i),
            "asyncness": decl.opt_if(zf("m_async", [i]), lambda: Obj("async")),
            "constness": decl.opt_if(zf("m_const", [i]), lambda: Obj("const")),
            "unsafety": decl.opt_if(zf("m_unsafe", [i]), lambda: Obj("unsafe")),
            "generics": Obj("generics"), "variadic": NONE, "abi": NONE,
            "inputs": self.inputs(i),
            "output": SymEnum("ReturnType", self.out(i), [("Default", lambda: ()), ("Type", lambda: (Obj("arrow"), self.out_ty(i)))])})
        return StructV("ImplItemMethod", {"attrs": self.attrs("m_attrs", i), "vis": Obj("vis"), "defaultness": NONE, "sig": sig,
                                          "block": Obj("block")})

    def out(self, i):
        o = zf("m_out", [i], IntS)
        self.it.ctx.fact_path(z3.And(o >= 0, o <= 1))
        return o

    def out_ty(self, i):
        return TypeV(("obj", Obj("out", (i,))))

    def out_is_impl(self, i):
        k = self.it.m.TYPE_KINDS.index("ImplTrait")
        return zf("tykind:out", [i], IntS) == k

    def inputs(self, i):
        """The receiver if there is one, then the other parameters: either all of them are identifiers, or some are, then one
        is not, then any others follow."""
        ctx = self.it.ctx
        recv = [One(EnumV("FnArg", "Receiver", (self.receiver(i),)))] if ctx.branch(self.has_recv(i)) else []

        def part(name, good):
            b = Base(name, (i,), None)
            ctx.fact_path(b.n >= 0)
            return Comp(b, lambda e: [One(EnumV("FnArg", "Typed", (self.typed(i, e.idx, name, good),)))], True)
        if ctx.branch(self.args_ok(i)):
            return SeqV(recv + [part("margs", True)], "vec")
        bad = EnumV("FnArg", "Typed", (self.typed(i, z3.IntVal(0), "bad", False),))
        return SeqV(recv + [part("before", True), One(bad), part("after", None)], "vec")

    def receiver(self, i):
        return StructV("Receiver", {
            "attrs": self.attrs("r_attrs", i),
            "mutability": decl.opt_if(zf("r_mut", [i]), lambda: Obj("mut")),
            "reference": decl.opt_if(zf("r_ref", [i]), lambda: TupleV([Obj("and", (), {"fields": {"span": Obj("span")}}), decl.opt_if(
                zf("r_life", [i]), lambda: Obj("lifetime"))])),
            "self_token": Obj("self", (), {"fields": {"span": Obj("span")}})})

    def typed(self, i, j, part, good):
        k = zf("pat_kind:" + part, [i, j], IntS)
        self.it.ctx.fact_path(z3.And(k >= (1 if good is False else 0), k < (1 if good else len(PAT_KINDS))))
        pid = StructV("PatIdent", {"attrs": self.attrs("pi_attrs:" + part, i, j), "ident": ident("p_ident", i, j), "by_ref": NONE,
                                   "mutability": decl.opt_if(zf("p_mut", [i, j]), lambda: Obj("mut")), "subpat": NONE})
        if good:
            pat = EnumV("Pat", "Ident", (pid,))
        else:
            pat = SymEnum("Pat", k, [("Ident", lambda: (pid,))] + [(n, lambda: (Obj("pat"),)) for n in PAT_KINDS[1:]])
        return StructV("PatType", {"attrs": self.attrs("p_attrs:" + part, i, j), "pat": pat, "colon_token": Obj("colon"), "ty": self.arg_ty(i, j)})

    def args_ok(self, i):
        return zf("m_args_ok", [i])

    def arg_ty(self, i, j):
        return TypeV(("obj", Obj("argty", (i, j))))

    # ---- the specification
    def signature_ok(self, i):
        """All but the parameters."""
        recv = z3.And(self.has_recv(i), zf("r_mut", [i]), zf("r_ref", [i]), z3.Not(zf("r_life", [i])))
        is_async = zf("m_async", [i])
        res = z3.If(is_async, z3.Or(self.out(i) == 0, z3.Not(self.out_is_impl(i))), self.out(i) == 1)
        return z3.And(recv, res)


def tyrep(t):
    """The type, as far as it is one of the block's: names of what it is made of."""
    if t[0] == "obj":
        o = t[1]
        return ("%s%r" % (o.kind, tuple(o.args))) if o.args else o.kind
    if t[0] == "adt" and isinstance(t[1], Ident):
        s = t[1].s
        if len(s.parts) == 1 and isinstance(s.parts[0], Hole) and s.parts[0].fn.startswith("tyident:"):
            h = s.parts[0]
            return tyrep(("obj", Obj(h.fn[8:], h.args)))
    if t[0] == "proj":
        return "<%s as %s>::%s" % (tyrep(t[1]), t[2] or "Stream", t[3])
    return repr(t)


def zod_model(t, name, args):
    if args == "?":
        return name in ("schema", "inline_schema", "type_def", "inline", "docs")
    k = (tyrep(t),)
    if name in ("schema", "inline_schema"):
        return S(Hole(name, k))
    if name == "inline":
        return Obj("InlinedType", k, {"display": lambda: S(Hole("inline", k))})
    if name == "type_def":
        return Obj("TsTypeDef", k, {"display": lambda: S(Hole("type_def", k))})
    raise Unsupported("ZodType::" + name)


def ns_model(t, name, args):
    if args == "?":
        return name == "NAME"
    return S(Hole("ns_name", (tyrep(t),)))


def comma(v):
    return [Tok("p", ",")] if v.comma else []


def project(it, toks, base, e):
    """The emitted tokens as far as they are about the item e (and about no item in particular)."""
    out = []
    for t in toks:
        if t.k == "seq":
            ps = it.ctx.norm(t.v)
            mine = []
            for p in ps:
                if isinstance(p, One):
                    mine += project(it, p.v.toks, base, e) + comma(p.v)
                elif it.ctx._same_base(p.base, base):
                    if p.rev:
                        raise Unsupported("emitted in reverse order")
                    for x in p.body(e):
                        if not isinstance(x, One):
                            raise Unsupported("repetition in the emitted code")
                        mine += project(it, x.v.toks, base, e) + comma(x.v)
                else:
                    mine = None
                    break
            if mine is None:
                out.append(t)
            else:
                out += mine
                if t.d and mine and not (t.d == "," and mine[-1].k == "p" and mine[-1].v == ","):
                    out.append(Tok("p", t.d))
            continue
        if t.k == "g":
            t2 = Tok("g", project(it, list(t.v), base, e), t.d, t.line, t.sp, t.suffix)
            out.append(t2)
            continue
        out.append(t)
    return out


def marker():
    return TokV([Tok("id", "orig_impl"), Tok("p", "!"), Tok("g", [], "{")])


def known_bad(it, B):
    found = [e for e in it.ctx.elems if it.ctx._same_base(e.base, B.base)]
    found += [Elem(B.base, c.first) for c in it.ctx.classes if it.ctx._same_base(c.comp.base, B.base) and it.ctx.must(c.cnt >= 1)]
    for e in found:
        if it.ctx.must(z3.And(B.is_method(e.idx), z3.Not(z3.And(
                B.signature_ok(e.idx), B.args_ok(e.idx))))):
            return True
    return False


def submissions(it, mod, name="submit"):
    out = []
    for d in mod.items.get("macro!", []):
        if d.name == name:
            out.append(d)
    return out


def member_spec(it, prog, B, mod, e):
    """Exactly one member is registered for the method e, none for another item."""
    subs = submissions(it, mod)
    if not it.ctx.branch(B.is_method(e.idx)):
        if subs:
            raise Mismatch("something which is no method is registered")
        return
    if len(subs) != 1:
        raise Mismatch("a method is registered %d times" % len(subs))
    i = e.idx
    fc = FCtx(mod)
    v = it.m.force_enum(it.deref(it.eval(P(list(subs[0].node.toks)).expr(), Env(), fc)))
    is_async = it.ctx.branch(zf("m_async", [i]))
    if v.variant != ("Method" if is_async else "Stream"):
        raise Mismatch("%s method is registered as %s" % ("an async" if is_async else "a non-async", v.variant))
    f = v.payload if isinstance(v.payload, dict) else None
    if f is None:
        raise Unsupported("registered value")
    T = ts.TS(it)
    T.strict(it.m.to_s(f["ns_name"]), S(Hole("ns_name", ("selfty",))))
    T.strict(it.m.to_s(f["name"]), unraw(it, ident("m_ident", i)))
    t = B.out_ty(i).t
    if it.ctx.branch(z3.And(z3.Not(zf("m_async", [i])), B.out_is_impl(i))):
        # what the method itself returns
        t = ("obj", Obj("ret", ("selfty", repr(S(Hole("m_ident", (i,)))))))
    want = t if is_async else ("proj", t, "Stream", "Item")
    if is_async and it.ctx.branch(B.out(i) == 0):
        want = ("tuple", [])
    T.strict(it.m.to_s(it.call(f["res"], [])), S(Hole("type_def", (tyrep(want),))))
    args = it.deref(it.call(f["args"], []))
    new = p_rpc.one_fn(prog, "RpcArgument::new")
    st = p_rpc.self_ty(it, new)
    ps = it.ctx.norm(args)
    b = Base("margs", (i,), None)
    if len(ps) != 1 or not isinstance(ps[0], Comp) or ps[0].rev or not it.ctx._same_base(ps[0].base, b):
        if not ps and it.ctx.must(b.n == 0):
            return
        if not ps:
            raise Mismatch("no arguments are registered")
        raise Mismatch("the registered arguments: %r" % (ps,), False)

    def one():
        a = it.ctx.new_elem(b, "a")
        xs = ps[0].body(a)
        if len(xs) != 1:
            raise Mismatch("an argument is registered %d times" % len(xs))
        w = it.deref(it.call_defn(new, [unraw(it, ident("p_ident", i, a.idx))], st, new.impl, None, [B.arg_ty(i, a.idx).t]))
        same_struct(it, T, it.deref(xs[0].v), w)
    return paths(it, one)


def same_struct(it, T, a, b):
    if not isinstance(a, StructV) or not isinstance(b, StructV) or set(a.fields) != set(b.fields):
        raise Unsupported("registered argument")
    for k in a.fields:
        T.strict(it.m.to_s(it.deref(a.fields[k])), it.m.to_s(it.deref(b.fields[k])))


def unraw(it, x):
    return it.m.to_s(it.m.method(x, "unraw", [], None, None))


def accepted_only(it, prog, B):
    """Every path of the macro: it rejects, then some method is bad, or accepts, then none is."""
    box = []

    def run():
        box.clear()
        try:
            r = dr.expand(it, prog, "namespace", [TokV([]), marker()])
        except Abort as e:
            if not known_bad(it, B):
                raise Mismatch("a block of acceptable methods is rejected: %s" % e.msg)
            return
        if len([t for t in r.toks if t.k == "id" and t.v == "orig_impl"]) != 1:
            raise Mismatch("the block itself is not kept")

        def ok():
            e = it.ctx.new_elem(B.base, "i")
            if it.ctx.branch(B.is_method(e.idx)) and not it.ctx.must(z3.And(B.signature_ok(e.idx), B.args_ok(e.idx))):
                raise Mismatch("a method which should be rejected is accepted")
        return paths(it, ok)
    return paths(it, run)


def setup(prog, deadline):
    it, D = dr.make(prog, "ns", deadline)
    it.trait_models.pop("ZodType", None)
    it.trait_models.pop("Namespace", None)
    return it, Block(it)


def outcome_task(prog, deadline):
    it, B = setup(prog, deadline)

    def body(it, attempt):
        attempt("namespace macro: a block is rejected exactly if it has a method without `&mut self`, with a lifetime, a parameter "
                "which is no identifier, or neither async without `impl Trait` nor non-async with a result",
                lambda: accepted_only(it, prog, B))
    return runner(prog, deadline, body, it)


def expand_for(it, prog, B, fn):
    """Runs fn(module, element) for the code which is emitted for one arbitrary item."""
    def run():
        try:
            r = dr.expand(it, prog, "namespace", [TokV([]), marker()])
        except Abort:
            return
        e = it.ctx.new_elem(B.base, "i")

        def inner():
            toks = project(it, r.toks, B.base, e)
            em = dr.Emitted(it, toks)
            return fn(em, e)
        return paths(it, inner)
    return paths(it, run)


def register_task(prog, deadline):
    it, B = setup(prog, deadline)

    def body(it, attempt):
        attempt("namespace macro: exactly one member per method, of its kind, under its namespace and name, with its arguments' "
                "names and types in order and its result or item type",
                lambda: expand_for(it, prog, B, lambda em, e: member_spec(it, prog, B, em.mod, e)))
    return runner(prog, deadline, body, it)


def c09():
    import rpc_battery as RB
    from driver import Task, Battery, Check
    return Check("C09", [Task("namespace macro: outcome", outcome_task), Task("namespace macro: members", register_task),
                         Task("RpcArgument::new", p_rpc.new_task)],
                 [Battery("registered methods", RB.registration_battery)],
                 assumptions=p_rpc.ASSUME + ["models of syn's ItemImpl, Signature, FnArg, Pat, ReturnType (zv/p_nsmacro.py): any impl "
                                             "block which parses", "rustc infers the return type of the method for a function "
                                             "passed as `impl Fn(..) -> S`"])
