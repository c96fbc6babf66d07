"""What the macros emit to serve requests: the request of a namespace and how it is called (C10, C11, C12), the request of a
backend and how it is handled (C10, C13)."""
import z3
from core import *
from interp import FCtx, Env
from rparse import P
from decl import zf
import derive_run as dr
import effects
import p_nsmacro as NM
import serde_model
import ts
from ts import Mismatch
from p_core import runner
from p_macro import paths

IntS = z3.IntSort()


def assoc_adt(it, em, trait, name):
    """Definition of the type which the emitted impl of the trait names."""
    im = em.impl(trait)
    a = im.types.get(name)
    if a is None:
        raise Unsupported("no %s::%s emitted" % (trait, name))
    t = it.type_val(a.ty, FCtx(im.module))
    if t[0] != "adt" or not isinstance(t[1], effects.Defn_):
        raise Unsupported("%s::%s is %r" % (trait, name, t))
    return t


def variants(d):
    if d.kind != "enum":
        raise Unsupported("the request is no enum")
    return [v for v in d.node.variants]


def inherent(em, t, name):
    out = []
    for im in em.impls:
        if im.trait_name is None:
            x = em.it.type_val(im.ty, FCtx(im.module))
            if x[0] == "adt" and x[1] is t[1] and name in im.fns:
                out.append((im, im.fns[name]))
    if len(out) != 1:
        raise Unsupported("%d functions %s" % (len(out), name))
    return out[0]


def method_name(B, i):
    return S(Hole("m_ident", (i,)))


def index_of(k):
    """The number of a field which is accessed by syn::Index."""
    if isinstance(k, Ident) and len(k.s.parts) == 1 and isinstance(k.s.parts[0], Hole) and k.s.parts[0].fn == "index":
        return k.s.parts[0].args[0]
    return k


class NsModel:
    """The user's methods: a call is an event; its result is anything."""

    def __init__(self, it, B, fx):
        self.it, self.B, self.fx = it, B, fx
        it.extra_methods.append(self.method)
        it.extra_methods.append(serde_model.serializer)

    def method(self, it, v, name, getargs, n, place):
        if isinstance(v, Obj) and v.kind == "rpc_args" and name.startswith("."):
            k = it.field_hole_name(n.v) if n is not None and n.kind == "fieldhole" else name[1:]
            k = index_of(k)
            if isinstance(k, str):
                if not k.isdigit():
                    raise Unsupported("field %s of the arguments" % name)
                k = z3.IntVal(int(k))
            if isinstance(k, int):
                k = z3.IntVal(k)
            return Obj("arg", (v.args[0], k))
        if isinstance(v, Obj) and v.kind == "user_ns" and not name.startswith(("$", ".", "=")):
            x = NM.HOLE_IDS.get(name)
            if x is None:
                raise Unsupported("method %s of the namespace" % name)
            args = getargs()
            r = Obj("called", (v, x, SeqV([One(a) for a in args], "vec")))
            self.fx.emit("call", v, x, args, r)
            return r
        if isinstance(v, Obj) and v.kind == "called" and name == "$await":
            self.fx.emit("awaited", v)
            return Obj("result", v.args)
        if isinstance(v, Obj) and v.kind == "err_text" and name in ("to_string",):
            return S(Hole("err_text", v.args))
        return NotImplemented


def setup(prog, deadline):
    it, B = NM.setup(prog, deadline)
    fx = effects.Effects(it)
    return it, B, fx, NsModel(it, B, fx)


# ------------------------------------------------------------------ the request of a namespace
def request_spec(it, B, em, e):
    if not it.ctx.branch(B.is_method(e.idx)):
        t = assoc_adt(it, em, "RpcNamespace", "Req")
        if variants(t[1]):
            raise Mismatch("there is a request for something which is no method")
        return
    i = e.idx
    T = ts.TS(it)
    t = assoc_adt(it, em, "RpcNamespace", "Req")
    im = em.impl("RpcNamespace")
    if NM.tyrep(it.type_val(im.ty, FCtx(im.module))) != "selfty":
        raise Mismatch("another type is the namespace")
    r = serde_model.of(it, t[1], "deserialize")
    if r.repr != "internal" or r.tag != "method":
        raise Mismatch("requests are not tagged by `method` alone: %s %r" % (r.repr, r.tag))
    if r.deny:
        raise Unsupported("deny_unknown_fields")
    vs = [v for v in r.variants if not v.skip]
    if len(vs) != 1:
        raise Mismatch("a method has %d requests" % len(vs))
    v = vs[0]
    if v.aliases:
        raise Mismatch("a method is called under another name, too")
    T.strict(v.name, NM.unraw(it, Ident(method_name(B, i))))
    fs = [f for f in v.fields if not f.skip]
    if any(f.default or f.aliases for f in fs):
        raise Mismatch("a method is called without its `args`")
    if v.style != "named" or len(fs) != 1 or fs[0].flatten or fs[0].by or fs[0].with_:
        raise Unsupported("the fields of a request")
    T.strict(fs[0].name, S("args"))
    return args_type(it, B, i, fs[0].ty, FCtx(em.mod))


def args_type(it, B, i, ty, fc):
    """JSON arrays of as many elements as there are arguments, of their types in order."""
    b = B.args_base(i)
    n = b.n
    if ty.kind == "tarray":
        t = it.type_val(ty, fc)
        if t[0] != "array" or not isinstance(t[2], int):
            raise Unsupported("type of the arguments")
        if not it.ctx.must(n == t[2]):
            raise Mismatch("an array of %d is expected" % t[2])
        if t[2]:
            raise Unsupported("type of the arguments")
        return
    if ty.kind != "ttuple":
        if it.ctx.must(n == 0) and ty.kind == "path" and ty.segs[-1][0] == "Vec":
            return
        raise Unsupported("type of the arguments")
    if not ty.elems:
        raise Mismatch("no arguments are read from null")
    if it.ctx.may(n == 0):
        raise Mismatch("no arguments are read from null")
    if len(ty.elems) != 1 or ty.elems[0].kind != "splice":
        raise Unsupported("type of the arguments")
    sp = ty.elems[0]
    ps = it.ctx.norm(sp.seq)
    if len(ps) != 1 or not isinstance(ps[0], Comp) or not it.ctx._same_base(ps[0].base, b):
        raise Unsupported("type of the arguments")
    if ps[0].rev:
        raise Mismatch("the arguments are read in reverse order")

    def one():
        a = it.ctx.new_elem(b, "a")
        xs = ps[0].body(a)
        if len(xs) != 1 or not isinstance(xs[0], One):
            raise Mismatch("an argument is read %d times" % len(xs))
        p = P(list(xs[0].v.toks))
        t = it.type_val(p.type(), fc)
        comma = p.eat_p(",") or getattr(xs[0].v, "comma", False)
        if not p.eof():
            raise Unsupported("type of an argument")
        if NM.tyrep(t) != NM.tyrep(B.arg_ty(i, a.idx).t):
            raise Mismatch("an argument is read as %s" % NM.tyrep(t))
        if not comma and not sp.trail and it.ctx.may(n == 1):
            raise Mismatch("an only argument is not read from an array")
        if comma and (sp.sep or sp.trail):
            raise Mismatch("the type of the arguments has two commas")
    return paths(it, one)


# ------------------------------------------------------------------ the call of a method
ID = z3.Int("request_id")


def response(it, T, e, kind, value, sender):
    """The event is one message to the sender: the kind with the id and the JSON of the value, or the error."""
    if e[0] != "send":
        raise Mismatch("%s instead of a message" % (e[0],))
    if e[1] is not sender:
        raise Mismatch("the message goes to %r" % (e[1],))
    m = serde_model.to_json(it, e[2])
    k = repr(value)
    if it.ctx.must(effects.flag("has_json", k)):
        want = {kind: {"id": ("num", ID), "data": ("of", lambda o: o.kind == "json" and o.args == ("of", k))}}
    elif it.ctx.must(z3.Not(effects.flag("has_json", k))):
        want = {"error": {"id": ("num", ID), "data": {"JsonError": ("text", None)}}}
    else:
        raise Mismatch("the message does not depend on the value" if not it.ctx.unknown else "", False)
    serde_model.same(it, T, m, want)


def check_call(it, B, i, ev, ns):
    """The event is the call of method i with its arguments in order."""
    if ev[0] != "call":
        raise Mismatch("%s before the method is called" % ev[0])
    if ev[1] is not ns:
        raise Mismatch("the method of another namespace is called")
    T = ts.TS(it)
    T.strict(ev[2], method_name(B, i))
    b = B.args_base(i)
    args = ev[3]
    if not args:
        if it.ctx.may(b.n != 0):
            raise Mismatch("the method is called without its arguments")
        return
    if len(args) != 1 or not (isinstance(args[0], StructV) and args[0].name == "$spread"):
        raise Unsupported("arguments of the call: %r" % (args,))
    ps = it.ctx.norm(args[0].fields["seq"])
    if len(ps) != 1 or not isinstance(ps[0], Comp) or not it.ctx._same_base(ps[0].base, b):
        raise Unsupported("arguments of the call")
    if ps[0].rev:
        raise Mismatch("the arguments are passed in reverse order")
    a = it.ctx.new_elem(b, "a")
    xs = ps[0].body(a)
    if len(xs) != 1:
        raise Mismatch("an argument is passed %d times" % len(xs))
    v = it.deref(xs[0].v)
    if not (isinstance(v, Obj) and v.kind == "arg"):
        raise Unsupported("argument %r" % (v,))
    if not it.ctx.must(v.args[1] == a.idx):
        raise Mismatch("another argument is passed: %r %r" % (v, a.idx))


class Run:
    """One call of the request of method i."""

    def __init__(self, it, B, fx, em, e):
        self.it, self.B, self.fx = it, B, fx
        t = assoc_adt(it, em, "RpcNamespace", "Req")
        im, fn = inherent(em, t, "call")
        r = serde_model.of(it, t[1], "deserialize")
        if len(r.variants) != 1 or len(r.variants[0].fields) != 1:
            raise Unsupported("the request of a method")
        v = r.variants[0]
        args = Obj("rpc_args", (e.idx,))
        req = EnumV(t[1].name, v.rust, {v.fields[0].rust: args} if v.style == "named" else (args,), t[1])
        self.ns, self.sender = Obj("user_ns"), Obj("sender")
        fx.reset()
        if len(fn.node.params) != 3:
            raise Unsupported("parameters of the call")
        self.result = it.await_(it.call_defn(fn, [req, ID, self.ns, self.sender], t, im), fn.node)
        self.result = it.m.force_enum(it.deref(self.result))
        self.events = list(it.events)


def call_spec(it, B, fx, em, e):
    i = e.idx
    if not it.ctx.branch(B.is_method(i)):
        return
    T = ts.TS(it)
    is_async = it.ctx.branch(zf("m_async", [i]))
    run = Run(it, B, fx, em, e)
    ev = run.events
    if not ev:
        raise Mismatch("the method is not called")
    check_call(it, B, i, ev[0], run.ns)
    called = ev[0][4]
    if is_async:
        if len(ev) < 2 or ev[1][0] != "awaited" or ev[1][1] is not called:
            raise Mismatch("the method is not awaited")
        if len(ev) != 3:
            raise Mismatch("%d messages answer a call" % len([x for x in ev if x[0] == "send"]))
        response(it, T, ev[2], "method", Obj("result", called.args), run.sender)
        if run.result.variant != "None":
            raise Mismatch("a call of a method counts as a subscription")
        return
    if len(ev) != 2 or ev[1][0] != "spawn":
        raise Mismatch("a stream is answered by %r" % ([x[0] for x in ev[1:]],))
    h = ev[1][1]
    if run.result.variant != "Some" or it.deref(run.result.payload[0]) is not h:
        raise Mismatch("the task of the stream is not returned")
    stream_spec(it, fx, T, h, called, run.sender)


def stream_spec(it, fx, T, h, called, sender):
    """The spawned task: for every item one message in order, until the stream ends or the receiver is gone."""
    fx.reset()
    ended = True
    try:
        it.await_(h.meta["future"], None)
    except effects.IterationEnd:
        ended = False
    ev = list(it.events)
    want = [("loop", "begin"), ("next",)]
    if len(ev) < 2 or ev[0] != ("loop", "begin") or ev[1][0] != "next":
        raise Mismatch("the stream is not read first: %r" % ([x[0] for x in ev],), False)
    st = it.deref(ev[1][1])
    if st is not called:
        raise Mismatch("another stream is read: %r" % (st,))
    k = ev[1][2]
    another = effects.flag("another", k)
    if it.ctx.must(z3.Not(another)):
        if [x for x in ev[2:] if x != ("loop", "end") and x != ("loop", "break")]:
            raise Mismatch("after its end, the stream goes on: %r" % ([x[0] for x in ev[2:]],))
        if not ended:
            raise Mismatch("the task does not end with the stream")
        return
    if not it.ctx.must(another):
        raise Unsupported("does the stream go on?")
    sends = [x for x in ev[2:] if x[0] != "loop"]
    if len(sends) != 1:
        raise Mismatch("%d messages for an item of the stream" % len(sends))
    response(it, T, sends[0], "stream", Obj("item", (st, k)), sender)
    sent = effects.flag("sent", sends[0][3])
    if it.ctx.must(sent):
        if ended:
            raise Mismatch("the task ends before the stream")
    elif it.ctx.must(z3.Not(sent)):
        if not ended:
            raise Mismatch("the task goes on although its receiver is gone", False)
    else:
        raise Mismatch("whether the receiver is gone does not matter", False)


def task(name, spec):
    def run(prog, deadline):
        it, B, fx, M = setup(prog, deadline)

        def body(it, attempt):
            attempt(name, lambda: NM.expand_for(it, prog, B, lambda em, e: spec(it, B, fx, em, e)))
        return runner(prog, deadline, body, it)
    return run


request_task = task("namespace macro: the request of each method is tagged with its name and has its arguments in order",
                    lambda it, B, fx, em, e: request_spec(it, B, em, e))
call_task = task("namespace macro: a request calls exactly its own method once, with its arguments in order, and answers with "
                 "exactly one response of the same id (methods) or one per item until the stream ends or the receiver is gone "
                 "(streams)", call_spec)


# ------------------------------------------------------------------ the request of a backend
class Server:
    """An arbitrary backend: any number of fields, of any types, named or not."""

    def __init__(self, prog, deadline, kind):
        it, D = dr.make(prog, kind, deadline)
        self.it, self.D, self.prog = it, D, prog
        it.trait_models.pop("ZodType", None)
        it.trait_models.pop("Namespace", None)
        it.overrides["Namespace"] = NM.ns_model
        self.fx = effects.Effects(it)
        it.extra_methods.append(self.method)
        it.extra_methods.append(serde_model.serializer)
        it.decoders.append(self.decode)
        self.backend, self.sender = Obj("backend"), Obj("sender")

    def decode(self, v, t):
        if t[0] != "proj" or t[3] != "Req":
            return NotImplemented
        k = (NM.tyrep(t[1]),)
        return effects.result(effects.flag("reads", k, repr(v)), lambda: Obj("nsreq", k + (v,)),
                              lambda: Obj("json_err", ("from", repr(v))))

    def method(self, it, v, name, getargs, n, place):
        if not isinstance(v, Obj):
            return NotImplemented
        if v.kind == "backend" and name.startswith("."):
            k = it.field_hole_name(n.v) if n is not None and n.kind == "fieldhole" else name[1:]
            return Obj("ns_field", (index_of(k),))
        if v.kind == "nsreq" and name == "call":
            r = Obj("nscalled", (self.fx.number(),))
            self.fx.emit("nscall", v, getargs(), r)
            return r
        if v.kind == "nscalled" and name == "$await":
            self.fx.emit("awaited", v)
            return effects.option(effects.flag("stream", v.args[0]), lambda: Obj("join", (NEW,)))
        if v.kind == "err_text" and name in ("to_string",):
            return S(Hole("err_text", v.args))
        return NotImplemented

    def element(self, fn):
        """fn(emitted, element) for what is emitted for an arbitrary field."""
        it = self.it

        def run():
            r = dr.expand(it, self.prog, "backend", [TokV([])])
            e = it.ctx.new_elem(self.D.base, "f")
            return fn(dr.Emitted(it, NM.project(it, r.toks, self.D.base, e)), e)
        return paths(it, run)


NEW = z3.Int("new_task")
TABLE = z3.Array("table", IntS, IntS)


def table_of(it, ty, fc):
    """The table of subscriptions, with any entries."""
    t = it.type_val(ty, fc)
    while t[0] == "ref":
        t = t[1]
    if t[0] != "adt" or not isinstance(t[1], effects.Defn_) or t[1].kind != "struct":
        raise Unsupported("table of subscriptions")
    d = t[1]
    if len(d.node.fields) != 1:
        raise Unsupported("fields of the table of subscriptions")
    f = d.node.fields[0]
    if f.ty.kind != "path" or f.ty.segs[-1][0] not in ("HashMap", "BTreeMap"):
        raise Unsupported("table of subscriptions")
    m = effects.TokMap(TABLE)
    v = StructV(d.name, {f.name if f.name is not None else "0": m}, d)
    return v, m, d


def handle(srv, em, request):
    """Runs the handler; the request is a function of its type."""
    it = srv.it
    im = em.impl("Backend")
    fn = im.fns.get("handle_request")
    if fn is None or len(fn.node.params) != 3:
        raise Unsupported("no handler emitted")
    fc = FCtx(im.module)
    tys = [p.ty if hasattr(p, "ty") else p[1] for p in fn.node.params]
    rt = it.type_val(tys[0], fc)
    subs, m, _ = table_of(it, tys[2], fc)
    if rt[0] != "adt" or not isinstance(rt[1], effects.Defn_):
        raise Unsupported("type of a request")
    srv.fx.reset()
    it.await_(it.call_defn(fn, [srv.backend, request(rt[1]), srv.sender, subs], em.self_ty(im), im), fn.node)
    return list(it.events), m.arr


def request_variant(it, d, wire):
    """The variant of the request which the client writes under the given key."""
    r = serde_model.of(it, d, "deserialize")
    if r.repr != "external":
        raise Mismatch("requests are %s" % r.repr)
    vs = [v for v in r.variants if v.name.const() == wire and not v.skip]
    if len(vs) != 1:
        raise Mismatch("there is no request %s" % wire)
    v = vs[0]
    if v.style != "named":
        raise Unsupported("request %s" % wire)
    return r, v


def exec_request(it, d):
    r, v = request_variant(it, d, "exec")
    ids = [f for f in v.fields if f.name.const() == "id" and not f.flatten]
    others = [f for f in v.fields if f.flatten]
    if len(ids) != 1 or len(others) != 1 or len(v.fields) != 2:
        raise Unsupported("fields of an exec request")
    if others[0].ty.kind != "path" or others[0].ty.segs[-1][0] != "Value":
        raise Unsupported("fields of an exec request")
    return EnumV(d.name, v.rust, {ids[0].rust: ID, others[0].rust: Obj("json", ("call",))}, d)


def cancel_request(it, d):
    r, v = request_variant(it, d, "cancelStream")
    if len(v.fields) != 1 or v.fields[0].name.const() != "id" or v.fields[0].flatten:
        raise Unsupported("fields of a cancel request")
    return EnumV(d.name, v.rust, {v.fields[0].rust: ID}, d)


def from_call(j):
    """The JSON of the call, but for the name of its namespace."""
    while isinstance(j, Obj) and j.kind == "json" and j.args[0] == "rest":
        if not set(j.args[2]) <= {"namespace", "id"}:
            raise Mismatch("%s does not reach the method" % (j.args[2],))
        j = j.meta["of"]
    return isinstance(j, Obj) and j.kind == "json" and j.args == ("call",)


def handler_spec(srv, em, e):
    it, D = srv.it, srv.D
    T = ts.TS(it)
    ev, arr = handle(srv, em, lambda d: exec_request(it, d))
    f = D.field(e.idx)
    ty = NM.tyrep(f.ty)
    calls = [x for x in ev if x[0] == "nscall"]
    if calls:
        if len(calls) != 1:
            raise Mismatch("a request is executed %d times" % len(calls))
        x = calls[0]
        req, args, res = x[1:]
        if req.args[0] != ty or not from_call(req.args[1]):
            raise Mismatch("the call is read as a request of %s" % req.args[0])
        name = S(Hole("json_field", (repr(Obj("json", ("call",))), "namespace")))
        if not it.ctx.must(z3bool(it.m.s_eq(name, S(Hole("ns_name", (ty,)))))):
            raise Mismatch("a request for another namespace is executed")
        if len(args) != 3:
            raise Unsupported("parameters of the call")
        if not it.ctx.must(it.deref(args[0]) == ID):
            raise Mismatch("the call is executed under another id")
        t = it.deref(args[1])
        if not isinstance(t, Obj) or t.kind != "ns_field":
            raise Unsupported("state of the call: %r" % (t,))
        k = t.args[0]
        if f.style == "Struct":
            same = isinstance(k, Ident) and repr(k) == repr(f.ident)
        else:
            same = isinstance(k, (int, z3.ExprRef)) and it.ctx.must(k == e.idx) or (
                isinstance(k, str) and k.isdigit() and it.ctx.must(e.idx == int(k)))
        if not same:
            raise Mismatch("the call is executed on another namespace: %r" % (k,))
        if it.deref(args[2]) is not srv.sender:
            raise Mismatch("the responses go elsewhere")
        i = ev.index(x)
        if i != 0:
            raise Mismatch("%s before the call" % ev[0][0])
        if len(ev) < 2 or ev[1][0] != "awaited" or ev[1][1] is not res:
            raise Mismatch("the call is not awaited")
        if it.ctx.branch(effects.flag("stream", res.args[0])):
            table_spec(it, ev[2:], arr, NEW)
        else:
            table_spec(it, ev[2:], arr, None)
        return
    # a request which nothing can execute
    if may_be_executed(srv, f, ty):
        raise Mismatch("a request for an existing method is not executed")
    if not it.ctx.must(arr == TABLE):
        raise Mismatch("a failing request changes the subscriptions")
    if len(ev) != 1 or ev[0][0] != "send":
        raise Mismatch("a failing request is answered by %r" % ([x[0] for x in ev],))
    if ev[0][1] is not srv.sender:
        raise Mismatch("the responses go elsewhere")
    serde_model.same(it, T, serde_model.to_json(it, ev[0][2]),
                     {"error": {"id": ("num", ID), "data": {"JsonError": ("text", None)}}})


def z3bool(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def may_be_executed(srv, f, ty):
    """On this path, the call names the namespace of the field and is one of its requests."""
    it = srv.it
    j = Obj("json", ("call",))
    name = S(Hole("json_field", (repr(j), "namespace")))
    known = it.m.s_eq(name, S(Hole("ns_name", (ty,))))
    conds = [effects.flag("has", repr(j), "namespace"), z3bool(known)]
    for v in (j, Obj("json", ("rest", repr(j), ("namespace",)))):
        conds.append(effects.flag("reads", (ty,), repr(v)))
    return it.ctx.may(z3.And(*conds))


def table_spec(it, ev, arr, new):
    """The table holds the new task under the id (None: nothing changes; 0: nothing under the id), and the task displaced is
    aborted, and no other one."""
    want = TABLE if new is None else z3.Store(TABLE, ID, new)
    if not it.ctx.must(arr == want):
        raise Mismatch("the subscriptions are not those of the history")
    aborts = [x for x in ev if x[0] == "abort"]
    if len(aborts) != len(ev):
        raise Mismatch("besides, %r" % ([x[0] for x in ev if x[0] != "abort"],))
    old = z3.Select(TABLE, ID)
    if new is None:
        if aborts:
            raise Mismatch("a task is aborted")
        return
    if it.ctx.must(old <= 0):
        if aborts:
            raise Mismatch("a task is aborted")
        return
    if not it.ctx.must(old > 0):
        raise Mismatch("the task which was there is not looked at" if not aborts else "a task is aborted in any case")
    if not aborts:
        if it.ctx.must(effects.flag("finished", old)):
            return
        raise Mismatch("the task which was there goes on")
    for x in aborts:
        if not it.ctx.must(x[1].args[0] == old):
            raise Mismatch("another task is aborted")


def cancel_spec(srv, em, e):
    ev, arr = handle(srv, em, lambda d: cancel_request(srv.it, d))
    table_spec(srv.it, ev, arr, z3.IntVal(0))


def server_task(name, spec):
    def run(prog, deadline):
        out = None
        for kind in ("backend", "backend_named"):
            srv = Server(prog, deadline, kind)

            def body(it, attempt):
                what = {"backend": "tuple struct", "backend_named": "struct"}[kind]
                attempt("derive(Backend), %s: %s" % (what, name), lambda: srv.element(lambda em, e: spec(srv, em, e)))
            r = runner(prog, deadline, body, srv.it)
            if out is None:
                out = r
            else:
                out["records"] += r["records"]
                for k in ("queries", "solver_s", "wall", "paths"):
                    out[k] += r[k]
                out["used"].update(r["used"])
        return out
    return run


handler_task = server_task("an exec request runs the request it is for the namespace it names, once, or is answered by one error; the "
                           "task of a stream is kept under the id and one it displaces is aborted", handler_spec)
cancel_task = server_task("a cancel request aborts and forgets the task of its id and touches nothing else", cancel_spec)


def drop_task(prog, deadline):
    srv = Server(prog, deadline, "backend")

    def body(it, attempt):
        def check():
            d = [x for m in effects.modules(prog.crates["zod_core"]) for x in m.items.get("Backend", []) if x.kind == "trait"]
            if len(d) != 1:
                raise Unsupported("trait Backend")
            fn = d[0].fns.get("handle_request")
            if fn is None or len(fn.node.params) != 3:
                raise Unsupported("handle_request")
            p = fn.node.params[2]
            fc = FCtx(d[0].module)

            def run():
                subs, m, sd = table_of(it, p.ty if hasattr(p, "ty") else p[1], fc)
                ims = [im for im in prog.impls if im.trait_name == "Drop" and it.type_val(im.ty, FCtx(im.module))[:2] == ("adt", sd)]
                if not ims:
                    raise Mismatch("dropping the table stops nothing")
                srv.fx.reset()
                it.call_defn(ims[0].fns["drop"], [subs], ("adt", sd, []), ims[0])
                ev = [x for x in it.events if x[0] == "each"]
                if not ev:
                    raise Mismatch("dropping the table stops nothing")
                if len(it.events) != 1:
                    raise Unsupported("drop: %r" % ([x[0] for x in it.events],))
                b, e, done = ev[0][1:]
                key = z3.Function("table_key", IntS, IntS)
                h = z3.Select(TABLE, key(e.idx))
                if not done and it.ctx.must(effects.flag("finished", h)):
                    return
                if len(done) != 1 or done[0][0] != "abort":
                    raise Mismatch("an entry of the dropped table: %r" % ([x[0] for x in done],))
                if not it.ctx.must(done[0][1].args[0] == h):
                    raise Mismatch("another task is aborted")
            return paths(it, run)
        attempt("the table of subscriptions: dropping it aborts every task it holds", check)
    return runner(prog, deadline, body, srv.it)


# ------------------------------------------------------------------ the messages
def named_type(ty, *names):
    return ty.kind == "path" and ty.qself is None and ty.segs[-1][0] in names


def unsigned(it, ty, d):
    t = it.type_val(ty, FCtx(d.module))
    return t in (("usize",), ("u64",)) or (ty.kind == "path" and ty.segs[-1][0] in ("usize", "u64") and len(ty.segs) == 1)


def wire_type(prog, name):
    ds = [d for m in effects.modules(prog.crates["zod_core"]) for d in m.items.get(name, []) if d.kind == "enum"]
    if len(ds) != 1:
        raise Unsupported("type %s" % name)
    return ds[0]


def messages_task(prog, deadline):
    srv = Server(prog, deadline, "backend")
    it = srv.it
    T = ts.TS(it)

    def requests():
        d = wire_type(prog, "Request")
        r = serde_model.of(it, d, "deserialize")
        if r.repr != "external":
            raise Mismatch("requests are %s" % r.repr)
        names = sorted(v.name.const() for v in r.variants if not v.skip)
        if names != ["cancelStream", "exec"]:
            raise Mismatch("the requests are %s" % names)
        for v in r.variants:
            if v.skip:
                continue
            if v.aliases:
                raise Mismatch("a kind of request has another name besides %s" % v.name.const())
            if v.style != "named":
                raise Mismatch("a request is no object") if v.style == "unit" else Unsupported("a request")
            for f in v.fields:
                if f.by or f.with_:
                    raise Unsupported("a field of a request")
            plain = [f for f in v.fields if not f.flatten and not f.skip]
            if [f.name.const() for f in plain] != ["id"]:
                raise Mismatch("%s has the keys %s" % (v.name.const(), [f.name.const() for f in plain]))
            if not unsigned(it, plain[0].ty, d):
                raise Unsupported("type of an id")
            if plain[0].default or plain[0].aliases:
                raise Mismatch("an id may be missing")
            flat = [f for f in v.fields if f.flatten]
            if v.name.const() == "exec":
                if len(flat) != 1:
                    raise Mismatch("the call is not part of the request")
                if not named_type(flat[0].ty, "Value", "Map"):
                    raise Unsupported("type of a call")
            elif flat:
                raise Unsupported("a cancel request")

    def built(name, args, want):
        def run():
            ds = [f for f in prog.all_fns() if f.name == name and f.impl is not None and f.impl.ty_name == "Response" and
                  f.impl.trait_name is None]
            if len(ds) != 1:
                raise Unsupported("Response::" + name)
            v = it.deref(it.call_defn(ds[0], list(args), it.type_val(ds[0].impl.ty, FCtx(ds[0].module)), ds[0].impl))
            serde_model.same(it, T, serde_model.to_json(it, v), want(it))
        return paths(it, run)
    val = Obj("value")
    k = repr(val)

    def ok_or_error(kind):
        def want(it):
            if it.ctx.branch(effects.flag("has_json", k)):
                return {kind: {"id": ("num", ID), "data": ("of", lambda o: o.kind == "json" and o.args == ("of", k))}}
            return {"error": {"id": ("num", ID), "data": {"JsonError": ("text", None)}}}
        return want

    def errors():
        e = Obj("json_err", ("any",))
        text = lambda: {"JsonError": ("text", None)}
        n = built("error", [ID, e], lambda it: {"error": {"id": ("num", ID), "data": text()}})
        n += built("error", [some(ID), e], lambda it: {"error": {"id": ("num", ID), "data": text()}})
        return n + built("error", [NONE, e], lambda it: {"error": {"id": None, "data": text()}})

    def body(it, attempt):
        attempt("a request is {exec: {id, ..call}} or {cancelStream: {id}}", requests)
        attempt("a method response is {method: {id, data}}, or {error: {id, data: {JsonError}}} if the value has no JSON form",
                lambda: built("method", [ID, val], ok_or_error("method")))
        attempt("a stream response is {stream: {id, data}}, or {error: {id, data: {JsonError}}} if the value has no JSON form",
                lambda: built("stream", [ID, val], ok_or_error("stream")))
        attempt("an error response is {error: {id or null, data: {JsonError: text}}}", errors)
    return runner(prog, deadline, body, it)


ASSUME = ["the methods of the user are arbitrary: they return, with any result, or a stream of any items",
          "tokio: a spawned task runs its future, abort stops it; futures: StreamExt::next yields the items in order; "
          "UnboundedSender::unbounded_send hands over one message or fails",
          "std::collections::HashMap: insert, remove, drain (modelled as an array)",
          "serde: derived implementations follow the attributes (zv/serde_model.py); flatten passes on the keys not named; an internally "
          "tagged enum reads the variant its tag names, a tuple of n reads an array of n",
          "async_trait and thiserror expand to the function and conversion they are given",
          "what a macro emits for a namespace or backend is checked for an arbitrary method or field; names of namespaces of a "
          "backend are distinct (C17), names of methods too (rustc)"]


def check(pid, tasks, bats):
    from driver import Task, Battery, Check
    import p_rpc
    return lambda: Check(pid, [Task(n, t) for n, t in tasks], [Battery(n, b) for n, b in bats], assumptions=p_rpc.ASSUME + ASSUME)


def checks():
    import rpc_battery as RB
    req = ("namespace macro: requests", request_task)
    cal = ("namespace macro: calls", call_task)
    han = ("derive(Backend): exec requests", handler_task)
    can = ("derive(Backend): cancel requests", cancel_task)
    dro = ("dropping the table", drop_task)
    msg = ("messages", messages_task)
    return {
        "C10": check("C10", [req, cal, han], [("request scripts", RB.runtime_battery("direct", ["calls", "answers"], "C10"))]),
        "C11": check("C11", [cal, msg], [("request scripts", RB.runtime_battery("direct", ["answers"], "C11"))]),
        "C12": check("C12", [cal, msg], [("request scripts", RB.runtime_battery("direct", ["items", "tasks"], "C12"))]),
        "C13": check("C13", [han, can, dro, cal], [("request scripts", RB.runtime_battery("direct", ["table", "tasks"], "C13"))]),
        "C18": check("C18", [msg, req, han, can], [("messages", RB.wire_battery)]),
    }
