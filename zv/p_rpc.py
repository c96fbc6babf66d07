"""Checks of the RPC code: C07 - C15, C17, C18."""
import z3
from core import *
from interp import Interp, FCtx, Env
from driver import Task, Battery, Check
from p_core import runner
import ts
import rpc_battery as RB
from ts import Mismatch

ASSUME = ["std contracts (zv/std_models.py): iterators, Vec, String, format!, Option/Result, HashMap/BTreeMap",
          "inventory::iter visits every submitted item exactly once"]


def view_model(t, name, args):
    """An arbitrary type implementing ZodType (indexed types too)."""
    if args == "?":
        return name in ("schema", "inline_schema", "type_def", "inline", "docs")
    o = t[1] if t[0] == "obj" else None
    k = (o.kind,) + o.args if o is not None else (repr(t),)
    if name in ("schema", "inline_schema"):
        return S(Hole(name, k))
    if name == "inline":
        return Obj("InlinedType", k, {"display": lambda: S(Hole("inline", k))})
    if name == "type_def":
        return Obj("TsTypeDef", k, {"display": lambda: S(Hole("type_def", k))})
    raise Unsupported("ZodType::" + name)


def either_view(t, name, args):
    """C08: a type may be mentioned by reference or expanded, both say the same (which of them is C04's)."""
    name = {"schema": "inline_schema", "type_def": "inline"}.get(name, name) if args != "?" else name
    return view_model(t, name, args)


def one_fn(prog, q):
    ds = prog.find_fns(q) or [d for d in prog.all_fns() if d.qual().endswith("::" + q)]
    if len(ds) != 1:
        raise Unsupported("%s not found" % q)
    return ds[0]


def self_ty(it, d):
    return it.type_val(d.impl.ty, FCtx(d.module)) if d.impl is not None else None


def call(it, d, args, tparams=None):
    st = self_ty(it, d)
    return it.deref(it.call_defn(d, args, st, d.impl, tparams))


# ---------------------------------------------------------------- C08
def declared(it, s):
    """The name under which a parameter or function is declared."""
    s = it.m.to_s(s)
    c = s.const()
    if c is not None:
        return S(RB.declared(c))
    f = z3.Or([it.m.s_eq(s, S(r)) for r in sorted(RB.RESERVED)])
    return S(s, "_") if it.truth(f) else s


def member(it, prog, variant, ns, name, args, res):
    d = one_fn(prog, "RpcMember::decl")
    E = self_ty(it, d)[1]
    return EnumV(E.name, variant, {"ns_name": ns, "name": name, "args": PyFn(lambda: args), "res": PyFn(lambda: res)}, E)


def arbitrary_args(it, prog):
    """Any number of arguments, each made by RpcArgument::new for some type and name."""
    new = one_fn(prog, "RpcArgument::new")
    base = Base("rpcargs", (), lambda i: None)
    it.ctx.assume(base.n >= 0)

    def mk(e):
        t = ("obj", Obj("ArgTy", (e.idx,)))
        return [One(it.deref(it.call_defn(new, [S(Hole("arg_name", (e.idx,)))], self_ty(it, new), new.impl, None, [t])))]
    return base, SeqV([Comp(base, mk, True)], "vec")


def decl_text(it, prog, variant):
    """(text of decl(), expected header items, base)"""
    base, args = arbitrary_args(it, prog)
    m = member(it, prog, variant, S(Hole("ns_name")), S(Hole("member_name")), args, S(Hole("res")))
    return it.m.to_s(call(it, one_fn(prog, "RpcMember::decl"), [m])), base


def decl_task(prog, deadline):
    def body(it, attempt):
        it.trait_models["ZodType"] = either_view
        it.extra_methods.append(str_lt)
        T = ts.TS(it)
        for variant in ("Method", "Stream"):
            def check(variant=variant):
                n = 0

                def go():
                    got, base = decl_text(it, prog, variant)
                    decl_spec(it, T, got, base, variant)
                for conds, kind, r in it.ctx.explore(go):
                    if kind != "ok":
                        raise Mismatch("%s: %s" % (kind, r))
                    n += 1
                return n
            attempt("%s: name and parameters in order, arguments validated by the tuple of their schemas first, then "
                    "namespace, name and arguments forwarded" % variant, check)
    return runner(prog, deadline, body)


def str_lt(it, v, name, getargs, n, place):
    return NotImplemented


def decl_spec(it, T, got, base, variant):
    items = [x for x in T.tokens(got) if x[0] != "c"]
    elems = T.tree(items)
    if len(elems) != 1 or elems[0][0] != "e":
        raise Mismatch("not one declaration: " + ts.show(elems))
    have = list(elems[0][1])
    while have and have[-1] == ("p", ";"):
        have.pop()
    name = declared(it, S(Hole("member_name")))
    kw = "export async function " if variant == "Method" else "export function "
    ret = "Promise" if variant == "Method" else "Store"
    send = "request" if variant == "Method" else "subscribe"
    params = Comp(base, lambda e: [One(S(declared(it, S(Hole("arg_name", (e.idx,)))), ": ", Hole("inline", ("ArgTy", e.idx))))], False)
    schemas = Comp(base, lambda e: [One(S(Hole("inline_schema", ("ArgTy", e.idx))))], False)
    want = T.tree(T.tokens(S(kw, name, "(", Join(",", SeqV([params])), "): ", ret, "<", Hole("res"), "> {}")))[0][1]
    if len(have) != len(want) or have[-1][0] != "g" or have[-1][1] != "{":
        raise Mismatch("%s / %s" % (ts.show_items(have), ts.show_items(want)))
    T.items(have[:-1], want[:-1])
    # the body: names of parameters as statements of their own, then validation, then the call
    inner = have[-1][2]
    end = T.tree(T.tokens(S("z.tuple([", Join(",", SeqV([schemas])), "]).parse([...arguments]); return ", send, "(\"",
                            Hole("ns_name"), "\", \"", Hole("member_name"), "\", arguments);")))[0][1]
    flat = inner[-1][1] if inner and inner[-1][0] == "e" else []
    if len(inner) != 1 or len(flat) < len(end):
        raise Mismatch("body of the function: %s" % ts.show(inner))
    T.items(flat[len(flat) - len(end):], end)
    for x in flat[:len(flat) - len(end)]:
        harmless(it, T, x, base)


def harmless(it, T, x, base):
    """Statements which only mention parameters."""
    if x == ("p", ";"):
        return
    if x[0] == "j" and x[1].const() is not None and x[1].const().strip() in (";", "") and "\n" in x[1].const() + (
            "\n" if x[1].const().strip() == ";" else ""):
        for p in it.ctx.norm(x[2]):
            if isinstance(p, Comp) and it.ctx._same_base(p.base, base):
                for conds, kind, v in it.ctx.explore(lambda: mention(it, T, p)):
                    if kind != "ok":
                        raise Mismatch("%s in the body" % kind)
            else:
                raise Unsupported("statements of the body")
        return
    raise Mismatch("an extra statement in the body: %s" % ts.show_items([x]), False)


def mention(it, T, p):
    e = it.ctx.new_elem(p.base, "a")
    xs = p.body(e)
    if len(xs) != 1:
        raise Unsupported("statements of the body")
    T.strict(it.m.to_s(xs[0].v), declared(it, S(Hole("arg_name", (e.idx,)))))


def new_task(prog, deadline):
    """RpcArgument::new keeps the name and takes type and schema of its type parameter."""
    def body(it, attempt):
        it.trait_models["ZodType"] = either_view

        def check():
            T = ts.TS(it)
            d = one_fn(prog, "RpcArgument::new")
            t = ("obj", Obj("T"))
            n = 0
            for conds, kind, r in it.ctx.explore(lambda: it.deref(it.call_defn(d, [S(Hole("arg"))], self_ty(it, d), d.impl, None, [t]))):
                if kind != "ok":
                    raise Mismatch("%s: %s" % (kind, r))
                vals = [it.m.to_s(it.deref(x)) for x in r.fields.values()]
                for w in (S(Hole("arg")), S(Hole("inline", ("T",))), S(Hole("inline_schema", ("T",)))):
                    if not any(repr(v) == repr(w) for v in vals):
                        raise Mismatch("no field holds %r" % w)
                n += 1
            return n
        attempt("RpcArgument::new: the name, the type and the schema of the argument's type", check)
    return runner(prog, deadline, body)


def references_task(prog, deadline):
    """C04: an argument's type is mentioned by reference in its declaration."""
    def body(it, attempt):
        from derive_check import hole_names
        it.trait_models["ZodType"] = view_model
        for variant in ("Method", "Stream"):
            def check(variant=variant):
                n = 0
                for conds, kind, r in it.ctx.explore(lambda: hole_names(it, decl_text(it, prog, variant)[0], set())):
                    if kind != "ok":
                        raise Mismatch("%s: %s" % (kind, r), False)
                    if r & {"schema", "type_def"}:
                        raise Mismatch("the type of an argument is expanded: %s" % sorted(r & {"schema", "type_def"}))
                    n += 1
                return n
            attempt("%s: the types of the arguments are mentioned by reference" % variant, check)
    return runner(prog, deadline, body)


def ns_name_task(prog, deadline):
    def body(it, attempt):
        def check():
            d = one_fn(prog, "RpcMember::ns_name")
            n = 0
            for v in ("Method", "Stream"):
                m = member(it, prog, v, S(Hole("ns_name")), S(Hole("member_name")), SeqV([], "vec"), S(Hole("res")))
                for conds, kind, r in it.ctx.explore(lambda: it.m.to_s(call(it, d, [m]))):
                    if kind != "ok" or repr(r) != repr(S(Hole("ns_name"))):
                        raise Mismatch("ns_name() is %r" % (r,))
                    n += 1
            return n
        attempt("RpcMember::ns_name is the namespace the member was registered with", check)
    return runner(prog, deadline, body)


def c08():
    return Check("C08", [Task("RpcMember::decl", decl_task), Task("RpcArgument::new", new_task)],
                 [Battery("calls of the generated functions", RB.functions_battery)], assumptions=ASSUME)
