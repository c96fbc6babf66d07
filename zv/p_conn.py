"""Connections: the proxy which serves several of them with one backend (C14), the websocket bridge (C15).

The real code is run from end to end: the proxy is made, connections are opened and split, requests are sent, and what was
sent is given to one arbitrary iteration of the loop which serves them."""
import z3
from core import *
from interp import FCtx, Env
from rparse import P
import effects
import derive_run as dr
import serde_model
import ts
from ts import Mismatch
from p_core import runner
from p_macro import paths
from p_serve import ID, ASSUME as SERVE_ASSUME

IntS = z3.IntSort()


class World:
    def __init__(self, prog, deadline):
        it, D = dr.make(prog, "ns", deadline)
        self.it, self.prog = it, prog
        fx = self.fx = effects.Effects(it)
        fx.channels = True
        it.extra_methods.append(self.method)
        it.extra_methods.append(serde_model.serializer)
        ext = it.extra_ext
        ext["mpsc::unbounded"] = ext["unbounded"] = ext["mpsc::unbounded_channel"] = self.channel
        ext["Mutex::new"] = lambda it, a, want, fc: Obj("mutex", (self.fx.number(),))
        ext["Mutex::default"] = ext["Mutex::new"]
        ext["Default::default"] = self.default
        it.decoders.append(self.decode)
        before = it.m.ext_assoc

        def assoc(t, trait, name, fc, n):
            if name == "default" and t[0] == "adt" and isinstance(t[1], effects.Defn_):
                return PyFn(lambda: Obj("subscriptions", (self.fx.number(),)), "default")
            if name == "from" and t[0] == "adt" and any(d is t[1] for d, _ in effects.error_enums(self.prog)):
                return PyFn(self.convert, "from")
            return before(t, trait, name, fc, n)
        it.m.ext_assoc = assoc
        self.backend = Obj("backend")
        self.incoming = None
        self.to_string = ext["serde_json::to_string"]
        ext["serde_json::to_string"] = lambda it, a, want, fc: ok(S(Hole("json_text", (show(it, a[0]),))))

    def channel(self, it, args, want, fc):
        k = self.fx.number()
        return TupleV([Obj("sender", (k,)), Obj("receiver", (k,))])

    def default(self, it, args, want, fc):
        w = it.m.cur_want
        t = it.type_val(w, fc) if w is not None else None
        s = repr(t)
        if t is None or "Mutex" in s:
            return Obj("mutex", (self.fx.number(),))
        return Obj("subscriptions", (self.fx.number(),))

    def convert(self, v):
        v = self.it.deref(v)
        if isinstance(v, Obj) and v.kind == "json_err":
            return self.fx.into_error(v)
        raise Unsupported("conversion into an error")

    def decode(self, v, t):
        if t[0] == "adt" and getattr(t[1], "name", None) == "Request":
            return effects.result(effects.flag("request", repr(v)), lambda: Obj("request", (v,)),
                                  lambda: Obj("json_err", ("from", repr(v))))
        return NotImplemented

    def select(self, n, env, fc):
        """select! waits until one of its futures ends and drops the others."""
        p = P(list(n.toks))
        arms = []
        while not p.eof():
            if p.is_id("default") or p.is_id("complete") or p.is_id("biased") or p.is_id("else"):
                raise Unsupported("select! with %s" % p.peek().v)
            pat = p.pattern()
            p.expect_p("=")
            e = p.expr()
            p.expect_p("=>")
            body = p.expr()
            p.eat_p(",")
            arms.append((pat, self.it.deref(self.it.eval(e, env, fc)), body))
        self.fx.emit("select", [a[1] for a in arms])
        for i, (pat, f, body) in enumerate(arms):
            if i == len(arms) - 1 or self.it.ctx.branch(effects.flag("first", i)):
                e = Env(env)
                if pat.kind != "pwild":
                    raise Unsupported("select! which uses a result")
                return self.it.eval(body, e, fc)

    def method(self, it, v, name, getargs, n, place):
        if name == "$macro" and v.name == "select":
            return self.select(v, *getargs)
        if isinstance(v, ClosureV) and name in ("fuse", "boxed", "boxed_local"):
            return v
        if isinstance(v, StructV) and name == "project":
            return v
        if isinstance(v, StructV) and name == "next":
            h = it.find_trait_item(it.m.type_of(v), "Stream", "poll_next")
            if h is not None:
                x = it.deref(it.call_defn(h[2], [v, Obj("waker")], it.m.type_of(v), h[0], dict(h[1])))
                if isinstance(x, Obj) and x.kind == "polled":
                    return Obj("next", (x.args[0],))
                raise Unsupported("poll_next")
        if not isinstance(v, Obj):
            return NotImplemented
        k = v.kind
        if k == "receiver":
            if name in ("next", "recv"):
                return Obj("next", (v,))
            if name in ("poll_next", "poll_next_unpin"):
                return Obj("polled", (v,))
            if name in ("by_ref", "as_mut", "fuse"):
                return v
        if k == "upgrade" and name == "on_upgrade":
            self.fx.emit("upgrade", getargs()[0])
            return Obj("reply")
        if k == "socket" and name == "split":
            return TupleV([Obj("ws_sink"), Obj("ws_stream")])
        if k == "ws_stream" and name in ("next", "recv"):
            return Obj("next", (v,))
        if k == "ws_sink" and name == "send":
            return Obj("writing", (it.deref(getargs()[0]),))
        if k == "writing" and name == "$await":
            n = self.fx.number()
            self.fx.emit("write", v.args[0], n)
            return effects.result(effects.flag("written", n), lambda: UNIT, lambda: Obj("ws_err"))
        if k in ("ws_stream", "ws_sink", "ws_err") and name == "clone":
            return v
        if k == "undecoded" and name in ("map_err", "map", "unwrap_or_else", "or_else", "is_ok", "is_err", "$force", "$ready"):
            # rustc infers what is read; that it is a request is checked where it is handled
            j = v.args[0]
            r = effects.result(effects.flag("request", repr(j)), lambda: Obj("request", (j,)),
                               lambda: Obj("json_err", ("from", repr(j))))
            return r if name == "$ready" else it.m.method(r, name, getargs(), None, None)
        if k == "mutex":
            if name == "lock":
                return Obj("locking", (v,))
            if name == "clone":
                return v
        if k == "locking" and name == "$await":
            self.fx.emit("lock", v.args[0])
            return Obj("guard", (v.args[0],))
        if k == "backend" and name == "handle_request":
            r = Obj("handling")
            self.fx.emit("handle", v, getargs(), r)
            return r
        if k == "handling" and name == "$await":
            self.fx.emit("handled", v)
            return UNIT
        return NotImplemented

    # ---- the parts of the real code
    def fn(self, name, impl):
        ds = [d for d in self.prog.all_fns() if d.name == name and d.module.crate == "zod" and
              (d.impl.ty_name if d.impl is not None else None) == impl and
              (d.impl is None or d.impl.trait_name is None)]
        if len(ds) != 1:
            raise Unsupported("%d functions %s::%s" % (len(ds), impl, name))
        return ds[0]

    def call(self, impl, name, args):
        d = self.fn(name, impl)
        st = self.it.type_val(d.impl.ty, FCtx(d.module)) if d.impl is not None else None
        r = self.it.call_defn(d, args, st, d.impl)
        return r

    def proxy(self):
        """A new proxy, and the future which serves it."""
        ev = self.it.events
        mark = len(ev)
        p = self.it.deref(self.call("BackendProxy", "new", [self.backend]))
        new = ev[mark:]
        if len(new) != 1 or new[0][0] != "spawn":
            raise Mismatch("the proxy starts %r" % ([x[0] for x in new],))
        return p, new[0][1].meta["future"]

    def connect(self, p):
        mark = len(self.it.events)
        c = self.it.deref(self.call("BackendProxy", "connect", [p]))
        if self.it.events[mark:]:
            raise Mismatch("opening a connection has effects")
        t = self.it.deref(self.call("ProxyConnection", "split", [c]))
        if self.it.events[mark:]:
            raise Mismatch("opening a connection has effects")
        if not isinstance(t, TupleV) or len(t.elems) != 2:
            raise Unsupported("halves of a connection")
        return t.elems[0], t.elems[1]

    def send(self, tx, result):
        """What is sent to the proxy for a request."""
        mark = len(self.it.events)
        r = self.it.m.force_enum(self.it.deref(self.call("ProxyTx", "send", [tx, result])))
        new = self.it.events[mark:]
        if len(new) != 1 or new[0][0] != "send":
            raise Mismatch("a request is passed on by %r" % ([x[0] for x in new],))
        sent = effects.flag("sent", new[0][3])
        if not self.it.ctx.must(sent if r.variant == "Ok" else z3.Not(sent)):
            raise Mismatch("a request which is not passed on counts as sent")
        return new[0]

    def serve(self, future, item):
        """One iteration of the loop with the given item (None: there is none): its events, and whether the task ends."""
        self.fx.script = [item]
        self.it.events[:] = []
        ended = True
        try:
            self.it.await_(future, None)
        except effects.IterationEnd:
            ended = False
        if self.fx.script:
            raise Unsupported("the proxy does not read its messages")
        self.fx.script = None
        ev = [e for e in self.it.events if e[0] not in ("loop",)]
        if not ev or ev[0][0] != "next":
            raise Unsupported("the proxy does not read its messages first")
        return ev[0], ev[1:], ended


def show(it, v):
    return repr(it.deref(v))


def receiver_of(w, rx):
    """The receiver a half of a connection reads."""
    x = w.it.deref(w.it.m.method(rx, "next", [], None, None))
    if not (isinstance(x, Obj) and x.kind == "next"):
        raise Unsupported("half of a connection")
    return w.it.deref(x.args[0])


def served(w, ev, ended, result, sender, table):
    """What one message does: the request handled, or the error answered, on its own connection, and the loop goes on."""
    it = w.it
    if ended:
        raise Mismatch("the proxy stops serving")
    if result.variant == "Ok":
        hs = [x for x in ev if x[0] == "handle"]
        if len(hs) != 1:
            raise Mismatch("a request is handled %d times" % len(hs))
        h = hs[0]
        args = [it.deref(a) for a in h[2]]
        if h[1] is not w.backend or len(args) != 3:
            raise Mismatch("another backend handles a request")
        if args[0] is not it.deref(result.payload[0]):
            raise Mismatch("another request is handled")
        if not same_obj(args[1], sender):
            raise Mismatch("the responses go to another connection")
        if not (isinstance(args[2], Obj) and args[2].kind == "guard" and same_obj(args[2].args[0], table)):
            raise Mismatch("the request uses the subscriptions of another connection" if isinstance(args[2], Obj) else "subscriptions",
                           isinstance(args[2], Obj))
        if ("handled", h[3]) not in [x[:2] for x in ev if x[0] == "handled"]:
            raise Mismatch("a request is not finished before the next one")
        rest = [x for x in ev if x[0] not in ("handle", "handled", "lock")]
        if rest:
            raise Mismatch("besides handling a request: %r" % ([x[0] for x in rest],))
        return
    if len(ev) != 1 or ev[0][0] != "send":
        raise Mismatch("an error is answered by %r" % ([x[0] for x in ev],))
    if not same_obj(ev[0][1], sender) or ev[0][2] is not it.deref(result.payload[0]):
        raise Mismatch("an error is answered on another connection")


def same_obj(a, b):
    return isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind and a.args == b.args


def table_of_half(w, tx):
    ts_ = [v for v in (w.it.deref(x) for x in tx.fields.values()) if isinstance(v, Obj) and v.kind == "mutex"]
    if len(ts_) != 1:
        raise Unsupported("subscriptions of a connection")
    return ts_[0]


def proxy_task(prog, deadline):
    w = World(prog, deadline)

    def fresh():
        w.fx.reset()
        w.fx.script = None
        return w.proxy()

    def results(it):
        req = it.ctx.branch(z3.Bool("is_request"))
        return ok(Obj("request", ("r",))) if req else err(Obj("response", ("e",)))

    def served_one():
        p, future = fresh()
        tx, rx = w.connect(p)
        result = results(w.it)
        sent = w.send(tx, result)
        if not w.it.ctx.branch(effects.flag("sent", sent[3])):
            return
        nxt, ev, ended = w.serve(future, sent[2])
        if not same_obj(nxt[1], Obj("receiver", sent[1].args)):
            raise Mismatch("the proxy does not read what is sent to it")
        r = receiver_of(w, rx)
        if not isinstance(r, Obj) or r.kind != "receiver":
            raise Unsupported("half of a connection")
        served(w, ev, ended, result, Obj("sender", r.args), table_of_half(w, tx))

    def ends():
        p, future = fresh()
        nxt, ev, ended = w.serve(future, None)
        if ev:
            raise Mismatch("a proxy nobody uses does %r" % ([x[0] for x in ev],))
        if not ended:
            raise Mismatch("a proxy nobody uses goes on")

    def isolated():
        p, future = fresh()
        a, b = w.connect(p), w.connect(p)
        ra, rb = receiver_of(w, a[1]), receiver_of(w, b[1])
        if same_obj(ra, rb):
            raise Mismatch("two connections read the same responses")
        if same_obj(table_of_half(w, a[0]), table_of_half(w, b[0])):
            raise Mismatch("two connections share their subscriptions")
        for c, r in ((a, ra), (b, rb)):
            result = ok(Obj("request", ("r",)))
            s = w.send(c[0], result)
            if not w.it.ctx.branch(effects.flag("sent", s[3])):
                continue
            nxt, ev, ended = w.serve(future, s[2])
            served(w, ev, ended, result, Obj("sender", r.args), table_of_half(w, c[0]))

    def body(it, attempt):
        attempt("one message: the request is handled with the sender and the subscriptions of its connection and finished before the "
                "next is read, or the error is answered on it; whatever becomes of it, the proxy goes on", lambda: paths(it, served_one))
        attempt("the proxy starts one task, which ends when nobody can send to it any more", lambda: paths(it, ends))
        attempt("two connections have their own responses and their own subscriptions", lambda: paths(it, isolated))
    return runner(prog, deadline, body, w.it)


# ------------------------------------------------------------------ the websocket
MESSAGES = ["Binary", "Ping", "Pong", "Close"]


def session(w):
    """A session on the websocket: its two directions, the half of the connection they use, and the future of the proxy."""
    it = w.it
    w.fx.reset()
    p, future = w.proxy()
    ext = StructV("Extension", {"0": p})
    d = w.fn("websocket_handler", None)
    mark = len(it.events)
    args = []
    for q in d.node.params:
        t = q.ty if hasattr(q, "ty") else q[1]
        args.append(Obj("upgrade") if t.kind == "path" and t.segs[-1][0] == "WebSocketUpgrade" else p)
    it.await_(it.call_defn(d, args), None)
    ev = it.events[mark:]
    if len(ev) != 1 or ev[0][0] != "upgrade":
        raise Mismatch("a connection is accepted by %r" % ([x[0] for x in ev],))
    mark = len(it.events)
    it.await_(it.call(ev[0][1], [Obj("socket")]), None)
    ev = it.events[mark:]
    if len(ev) != 1 or ev[0][0] != "select":
        raise Unsupported("a session: %r" % ([x[0] for x in ev],))
    if len(ev[0][1]) != 2:
        raise Unsupported("directions of a session")
    return ev[0][1], future


def direction(w, f, item):
    """One iteration of a direction: what it reads, its events, and whether it ends."""
    it = w.it
    w.fx.script = [item]
    it.events[:] = []
    ended = True
    try:
        it.await_(f, None)
    except effects.IterationEnd:
        ended = False
    if w.fx.script:
        raise Unsupported("a direction which reads nothing")
    w.fx.script = None
    ev = [e for e in it.events if e[0] != "loop"]
    if not ev or ev[0][0] != "next":
        raise Unsupported("a direction which does not read first")
    return it.deref(ev[0][1]), ev[1:], ended


def which(w, fs):
    """(reading, writing)"""
    out = {}
    for f in fs:
        src, ev, ended = direction(w, f, None)
        if ev:
            raise Mismatch("a direction which ends does %r" % ([x[0] for x in ev],))
        if not ended:
            raise Mismatch("a direction goes on after its end")
        out.setdefault(src.kind, (f, src))
    if set(out) != {"ws_stream", "receiver"}:
        raise Mismatch("the directions read %s" % sorted(out))
    return out["ws_stream"], out["receiver"]


def websocket_task(prog, deadline):
    w = World(prog, deadline)
    it = w.it
    T = ts.TS(it)

    def incoming():
        fs, future = session(w)
        (f, _), (g, rx) = which(w, fs)
        k = z3.Int("frame")
        it.ctx.fact_path(z3.And(k >= 0, k <= len(MESSAGES) + 1))
        if it.ctx.branch(k == 0):
            text = S(Hole("frame_text"))
            src, ev, ended = direction(w, f, ok(EnumV("Message", "Text", (text,))))
            if len(ev) != 1 or ev[0][0] != "send":
                raise Mismatch("a text message is handed on by %r" % ([x[0] for x in ev],))
            if not it.ctx.branch(effects.flag("sent", ev[0][3])):
                return
            if ended:
                raise Mismatch("a text message ends the session")
            msg = ev[0][2]
            _, ev, ended = w.serve(future, msg)
            j = repr(Obj("json", ("text", repr(text))))
            good = effects.flag("request", j)
            if ended or len([x for x in ev if x[0] in ("handle", "send")]) != 1:
                raise Mismatch("a text message is handed to the backend as %r" % ([x[0] for x in ev],))
            if it.ctx.branch(good):
                h = [x for x in ev if x[0] == "handle"]
                if not h:
                    raise Mismatch("a request is not handled")
                a = [it.deref(x) for x in h[0][2]]
                if not (isinstance(a[0], Obj) and a[0].kind == "request" and repr(a[0].args[0]) == j):
                    raise Mismatch("another request is handled: %r" % (a[0],), False)
                if not same_obj(a[1], Obj("sender", rx.args)):
                    raise Mismatch("the responses go elsewhere")
                return
            h = [x for x in ev if x[0] == "send"]
            if not h:
                raise Mismatch("an invalid request is handled")
            if not same_obj(h[0][1], Obj("sender", rx.args)):
                raise Mismatch("the error is answered elsewhere")
            serde_model.same(it, T, serde_model.to_json(it, h[0][2]), {"error": {"id": None, "data": {"JsonError": ("text", None)}}})
            return
        for i, m in enumerate(MESSAGES):
            if it.ctx.branch(k == i + 1):
                src, ev, ended = direction(w, f, ok(EnumV("Message", m, (Obj("payload"),))))
                if ev:
                    raise Mismatch("a %s message has effects: %r" % (m, [x[0] for x in ev]))
                if ended and m != "Close":
                    raise Mismatch("a %s message ends the session" % m)
                return
        src, ev, ended = direction(w, f, err(Obj("ws_err")))
        if ev:
            raise Mismatch("a failing message has effects")

    def outgoing():
        fs, future = session(w)
        (f, _), (g, rx) = which(w, fs)
        resp = Obj("response", ("r",))
        src, ev, ended = direction(w, g, resp)
        if len(ev) != 1 or ev[0][0] != "write":
            raise Mismatch("a response is written by %r" % ([x[0] for x in ev],))
        m = it.deref(ev[0][1])
        if not isinstance(m, EnumV) or m.variant != "Text":
            raise Mismatch("a response is written as %r" % (m,))
        T.strict(it.m.to_s(it.deref(m.payload[0])), S(Hole("json_text", (repr(resp),))))
        if it.ctx.branch(effects.flag("written", ev[0][2])) and ended:
            raise Mismatch("a response ends the session")

    def body(it, attempt):
        attempt("incoming messages: a text is handed to the backend once, as the request it encodes or as an error without id; other "
                "messages have no effect and do not end the session", lambda: paths(it, incoming))
        attempt("outgoing messages: a response is written once, as one text message of its JSON; the session ends with either "
                "direction", lambda: paths(it, outgoing))
    return runner(prog, deadline, body, w.it)


ASSUME = SERVE_ASSUME + [
    "futures: an unbounded channel delivers what was sent in order; Mutex gives exclusive access; select! waits for the first of its "
    "futures and drops the others", "axum: on_upgrade runs the session with the socket; the socket yields its messages in order",
    "the JSON text of a response can always be written (its parts are numbers, JSON values and texts)",
    "what a loop does for an arbitrary message it does for every one: its variables do not change from one to the next (checked)"]


def checks():
    import rpc_battery as RB
    import p_rpc
    import p_serve
    from driver import Task, Battery, Check
    prox = Task("proxy", proxy_task)
    return {
        "C14": lambda: Check("C14", [prox, Task("derive(Backend): exec requests", p_serve.handler_task),
                                     Task("derive(Backend): cancel requests", p_serve.cancel_task)],
                             [Battery("request scripts of several connections", RB.runtime_battery(
                                 "proxied", ["calls", "tasks", "table", "wire", "answers", "items"], "C14"))],
                             assumptions=p_rpc.ASSUME + ASSUME),
        "C15": lambda: Check("C15", [Task("websocket", websocket_task), prox],
                             [Battery("websocket sessions", RB.websocket_battery)], assumptions=p_rpc.ASSUME + ASSUME),
    }
