"""The websocket client the crate ships (C22): TypeScript, executed symbolically by tsx.py.

`request` and `subscribe` are verified against the contract of the connection they share (its `subscribe` and `send`), the
connection itself against that contract: its class invariant is the set of abstract states reachable by any history of calls,
socket events and timers, found as a fixpoint, in which one arbitrary message and one arbitrary subscription are followed and
all others are represented by collections of any size."""
import json
import os
import re
import subprocess
import tempfile
import time
import z3
from core import Unsupported, Hole
from driver import Task, Battery, Check
from p_core import runner
from p_macro import paths
from ts import Mismatch
import harness
import tsx
from tsx import (UNDEF, ANY, Op, Sym, Arr, SetObj, MapObj, Star, Rest, JSObj, Fn, Nat, Promise, Sock, Timer, Cell, Machine, Throw,
                 Prune, Diverges, Length, AnyNum, CONNECTING, OPEN, CLOSING, CLOSED, free_names)

RUN = os.path.join(os.path.dirname(tsx.AST), "run.mjs")


class Wrong(Exception):
    pass


def client_path():
    """The one TypeScript file the sources include."""
    out = set()
    for d, _, fs in os.walk(os.path.join(harness.REPO, "src")):
        for f in fs:
            if f.endswith(".rs"):
                for m in re.findall(r'include_str!\s*\(\s*"([^"]+\.ts)"\s*,?\s*\)', open(os.path.join(d, f)).read()):
                    out.add(os.path.normpath(os.path.join(d, m)))
    if len(out) != 1:
        raise Unsupported("the sources include %d TypeScript files" % len(out))
    return out.pop()


def get_task(prog, deadline):
    """WebsocketClient::get returns the text of that file."""
    def body(it, attempt):
        def prove():
            ds = [d for d in prog.all_fns() if d.qual().endswith("::get") and getattr(d, "impl", None) is not None
                  and d.impl.trait_name == "ClientCodegen" and d.impl.ty_name == "WebsocketClient"]
            if len(ds) != 1:
                raise Unsupported("no implementation of ClientCodegen for WebsocketClient")
            def run():
                v = it.m.to_s(it.deref(it.call_defn(ds[0], [], None, ds[0].impl)))
                ps = list(v.parts)
                if len(ps) != 1 or not isinstance(ps[0], Hole) or ps[0].fn != "include":
                    raise Mismatch("the client is not the included file alone: %r" % (v,), False)
                if os.path.basename(str(ps[0].args[0]).strip('"')) != os.path.basename(client_path()):
                    raise Mismatch("another file is included: %r" % (v,), False)
            return paths(it, run)
        attempt("WebsocketClient::get is the text of that file", prove)
    return runner(prog, deadline, body)


# ---------------------------------------------------------------------------------- one function, from any state
def all_paths(stmts, body, deadline, stats):
    decisions = []
    while True:
        if time.time() > deadline:
            raise Unsupported("time budget")
        m = Machine(stmts, decisions)
        try:
            body(m)
        except Prune:
            pass
        stats["paths"] += 1
        stats["queries"] += m.queries
        stats["solver"] = stats.get("solver", 0.0) + m.solver_s
        t = m.taken
        while t and t[-1][0] + 1 >= t[-1][1]:
            t.pop()
        if not t:
            return
        decisions = [c for c, _, _ in t[:-1]] + [t[-1][0] + 1]


def find_connection(m):
    cs = [(k, c) for k, c in m.module.vars.items() if isinstance(c.v, JSObj) and c.v.cls == "object" and "send" in c.v.props and "subscribe" in c.v.props]
    if len(cs) != 1:
        raise Unsupported("the connection is not one object with send and subscribe")
    return cs[0]


class Calls:
    """`request` and `subscribe` over a connection of which only the contract is known."""

    def __init__(self, m):
        self.m = m
        m.load()
        _, cell = find_connection(m)
        self.subs, self.sent, self.dropped = [], [], []

        def send(m, this, a):
            self.sent.append(a[0] if a else UNDEF)
            m.trace.append(("send",))
            return UNDEF

        def subscribe(m, this, a):
            self.subs.append(a[0])
            k = len(self.subs) - 1

            def off(m, this, b):
                self.dropped.append(k)
                return UNDEF
            self.off = Nat("unsubscribe", off)
            self.offs.append(self.off)
            return self.off
        self.offs = []
        cell.v = JSObj({"send": Nat("send", send), "subscribe": Nat("subscribe", subscribe)})
        self.counters = {}
        for k, c in m.module.vars.items():
            if c.kind in ("let", "var") and isinstance(c.v, int) and not isinstance(c.v, bool):
                e = m.number("before_" + k)
                m.solver.add(e >= c.v)
                c.v = Sym(e)
                self.counters[k] = e
            elif c.kind in ("let", "var") and c.v is not UNDEF:
                raise Unsupported("the module variable " + k)
        self.named = {k: m.module.vars[k].v for k in ("request", "subscribe") if k in m.module.vars}
        self.ns, self.method, self.args = Op("string", "namespace"), Op("string", "method"), Op("args")

    def fn(self, name):
        if name not in self.named:
            raise Wrong("the client has no function " + name)
        return self.named[name]

    def must(self, cond):
        return not self.m.sat(z3.Not(cond))

    def term(self, v):
        if isinstance(v, Sym):
            return v.e
        if isinstance(v, int) and not isinstance(v, bool):
            return z3.IntVal(v)
        raise Wrong("the id is no number: %r" % (v,))

    def message(self):
        """Exactly one message has been sent: the call with a fresh id."""
        if len(self.sent) != 1:
            raise Wrong("%d messages are sent for one call" % len(self.sent))
        t = self.sent[0]
        if not isinstance(t, Op) or t.kind != "json text":
            raise Wrong("the message is not the JSON text of a value: %r" % (t,))
        o = t.args[0]
        want = {"method": self.method, "namespace": self.ns, "args": ("array", ("rest", repr(self.args)))}
        if not (isinstance(o, tuple) and o[0] == "object" and set(o[1]) == {"exec"} and o[1]["exec"][0] == "object"):
            raise Wrong("the message is not {exec: {..}}: %r" % (o,))
        x = o[1]["exec"][1]
        if set(x) != {"id", "method", "namespace", "args"}:
            raise Wrong("the call has the members %s" % sorted(x))
        for k, v in want.items():
            if x[k] is not v and not (isinstance(v, tuple) and x[k] == v):
                raise Wrong("%s of the message is %r" % (k, x[k]))
        e = self.term(x["id"])
        self.after = {}
        fresh = False
        for k, pre in self.counters.items():
            post = self.term(self.m.module.vars[k].v)
            if not self.must(post >= pre):
                raise Wrong("the counter %s may decrease" % k)
            self.after[k] = post
            fresh = fresh or (self.must(e > pre) and self.must(post >= e))
        if not fresh:
            raise Wrong("the id is not fresh: %s" % z3.simplify(e))
        return e

    def later(self):
        """Any number of calls have been made in the meantime."""
        for k, post in self.after.items():
            e = self.m.number("later_" + k)
            self.m.solver.add(e >= post)
            self.m.module.vars[k].v = Sym(e)
            self.after[k] = e

    def unchanged(self):
        for k, e in self.after.items():
            if not self.must(self.term(self.m.module.vars[k].v) == e):
                raise Wrong("a reply changes the counter " + k)

    def deliver(self, f, r, data):
        n = len(self.sent), len(self.subs)
        self.m.trace = []
        self.m.call(f, UNDEF, [Arr([Sym(r), data])])
        self.m.drain()
        if (len(self.sent), len(self.subs)) != n:
            raise Wrong("a reply makes the client send or subscribe")
        self.unchanged()
        return [t for t in self.m.trace if t[0] == "call"]


def guarded(f):
    def body(m):
        try:
            f(m)
        except Throw as t:
            raise Wrong("an exception is thrown: %r" % (t.v,))
        except Diverges:
            raise Unsupported("the execution does not end")
    return body


def request_body(m):
    c = Calls(m)
    p = m.call(c.fn("request"), UNDEF, [c.ns, c.method, c.args])
    m.drain()
    e = c.message()
    if not isinstance(p, Promise):
        raise Wrong("request returns no promise")
    if len(c.subs) != 1:
        raise Wrong("a request makes %d subscriptions" % len(c.subs))
    if p.state != "pending" or c.dropped:
        raise Wrong("a request is over before its reply")
    for k in range(2):
        # replies to others and the own one, in any order
        c.later()
        r = m.number("reply")
        d = Op("reply data", k)
        mine = m.branch(r == e)
        c.deliver(c.subs[0], r, d)
        if mine:
            if p.state != "fulfilled" or p.value is not d:
                raise Wrong("the own reply does not resolve the request with its data (%s)" % p.state)
            if c.dropped != [0]:
                raise Wrong("after the reply the subscription is dropped %d times" % len(c.dropped))
            c.later()
            c.deliver(c.subs[0], m.number("reply"), Op("reply data", "later"))
            if p.value is not d or p.state != "fulfilled":
                raise Wrong("a later reply changes the result")
            return
        if p.state != "pending" or c.dropped:
            raise Wrong("the reply of another call ends the request")


def subscribe_body(m):
    c = Calls(m)
    store = m.call(c.fn("subscribe"), UNDEF, [c.ns, c.method, c.args])
    m.drain()
    e = c.message()
    if not isinstance(store, JSObj) or "subscribe" not in store.props:
        raise Wrong("subscribe returns no store")
    if c.subs:
        raise Unsupported("a store which subscribes by itself")
    cbs = [Op("function", "first"), Op("function", "second")]
    offs = []
    for k, cb in enumerate(cbs):
        c.later()
        offs.append(m.call(store.props["subscribe"], store, [cb]))
        m.drain()
        c.unchanged()
        if len(c.subs) != k + 1 or len(c.sent) != 1 or c.dropped:
            raise Wrong("a subscriber of a store does not make exactly one subscription")
    for k, cb in enumerate(cbs):
        c.later()
        r = m.number("item")
        d = Op("reply data", k)
        mine = m.branch(r == e)
        got = c.deliver(c.subs[k], r, d)
        want = [("call", cb, [d])] if mine else []
        if [(t, f, a) for t, f, a in got] != want:
            raise Wrong("the subscriber is called %s for %s reply" % (got, "an own" if mine else "a foreign"))
        if c.dropped:
            raise Wrong("an item ends the subscription")
    for k, off in enumerate(offs):
        m.call(off, UNDEF, [])
        m.drain()
        if c.dropped != list(range(k + 1)):
            raise Wrong("unsubscribing does not drop exactly the own subscription")


def calls_task(prog, deadline):
    recs = []
    stats = {"paths": 0, "queries": 0}
    t0 = time.time()
    try:
        stmts = tsx.parse(client_path())
    except Unsupported as x:
        return {"records": [{"name": "the client is read", "status": "undecided", "detail": [str(x)]}]}
    for name, body in (("request: one subscription and one message {exec: {id, method, namespace, args}} with a fresh id; its own reply resolves it and drops the subscription, every other leaves it pending", request_body),
                       ("subscribe: one message with a fresh id; each subscriber gets the items with that id, each once, and no others; unsubscribing drops its own subscription", subscribe_body)):
        rec = {"name": name, "vcs": 0, "detail": []}
        try:
            n = stats["paths"]
            all_paths(stmts, guarded(body), deadline, stats)
            rec["status"] = "proved"
            rec["vcs"] = stats["paths"] - n
        except Wrong as w:
            rec["status"] = "refuted"
            rec["detail"] = [str(w)]
        except Unsupported as u:
            rec["status"] = "undecided"
            rec["detail"] = ["unsupported: %s" % u]
        recs.append(rec)
    return {"records": recs, "used": {"websocket_client.ts::request": 1, "websocket_client.ts::subscribe": 1, "websocket_client.ts::execute": 1},
            "queries": stats["queries"], "solver_s": stats.get("solver", 0.0), "paths": stats["paths"]}


# ---------------------------------------------------------------------------------- the connection, from any state
T, O = Op("message"), Op("other message")
F, P = Op("subscription"), Op("other subscription")


def over(s):
    """A socket which can do nothing more than report that it is closed, and is not the one in use."""
    return s.state == CLOSING and (s.by_client or not s.last)


class Run:
    """A history of moves, replayed."""

    def __init__(self, stmts, widened, moves, decisions):
        m = self.m = Machine(stmts, decisions)
        self.widened = widened
        m.on_send, m.on_close = self.on_send, self.on_close
        m.state_key = self.key
        self.t_kind = None              # how T was issued
        self.t_sent = 0
        self.t_sock = None
        self.replied = False
        self.f_on = False
        self.off_f = self.off_p = None
        self.notified = []
        self.merged = False
        m.load()
        self.conn = find_connection(m)[1].v
        self.seed()
        self.at = []
        self.normalise()
        for mv in moves:
            self.at.append((mv, len(m.taken)))
            self.turn(mv)

    def seed(self):
        """There may be other subscriptions from the start (one is made, and dropped again)."""

    # ---- what the environment sees
    def on_send(self, s, text):
        if text is not T and text is not O:
            raise Wrong("something else than the message is sent: %r" % (text,))
        if s.state != OPEN:
            raise Wrong("a message is given to a socket which is not open")
        if text is T:
            self.t_sent += 1
            self.t_sock = s
            if self.t_sent > 1:
                raise Wrong("a message is sent more than once")
            if self.t_kind is None:
                raise Wrong("a message is sent before it is given")

    def on_close(self, s):
        if s.state == OPEN and self.f_on and self.t_sock is s and not (self.t_kind == "request" and self.replied):
            raise Wrong("the open connection is closed while a caller still waits for replies on it")

    def send(self, text):
        self.m.call(self.m.get_prop(self.conn, "send"), self.conn, [text])

    def sub(self, f):
        r = self.m.call(self.m.get_prop(self.conn, "subscribe"), self.conn, [f])
        if f is F:
            self.off_f, self.f_on = r, True
        else:
            self.off_p = r

    def off(self, f):
        h = self.off_f if f is F else self.off_p
        if f is F:
            self.f_on = False
        self.m.call(h, UNDEF, [])

    def message(self, s, kind):
        m = self.m
        i, d = Sym(m.number("id")), Op("reply data")
        text = Op("string", "event data", kind)
        if kind == "other":
            m.stub[text] = lambda: JSObj({"error": JSObj({"id": i, "data": d})})
        else:
            m.stub[text] = lambda: JSObj({kind: JSObj({"id": i, "data": d})})
        n = len(m.trace)
        on = self.f_on
        m.fire(s, "message", JSObj({"data": text, "type": "message", "target": s}))
        m.drain()
        calls = [a for t, f, a in m.trace[n:] if t == "call" and f is F]
        del m.trace[n:]
        want = 1 if on and kind != "other" else 0
        if on and kind != "other" and kind != ("method" if self.t_kind == "request" else "stream"):
            return                      # a reply of the other kind carries another id
        if len(calls) != want:
            raise Wrong("a live subscription is notified %d times of one %s message" % (len(calls), kind))
        for a in calls:
            v = a[0] if a else None
            if not (isinstance(v, tuple) and v[0] == "array" and len(v) == 3 and isinstance(v[1], Sym) and v[1].e.eq(i.e) and v[2] is d):
                raise Wrong("a subscription is notified with %r" % (a,))

    # ---- moves
    def enabled(self):
        m = self.m
        r = []
        if self.t_kind is None:
            r += [("request T",), ("stream T",)]
        if self.t_kind == "stream" and self.off_f is None:
            r.append(("listen F",))
        if self.t_kind == "stream" and self.f_on:
            r.append(("drop F",))
        r += [("request O",), ("stream O",), ("listen O",)]
        if self.off_p is not None:
            r.append(("drop O",))
        for i, s in enumerate(m.sockets):
            if s.gone:
                continue
            if s.state == CONNECTING:
                r += [("open", i), ("refuse", i)]
            if s.state == OPEN:
                r += [("lost", i), ("lost with error", i), ("closing", i), ("method", i), ("stream", i), ("other", i)]
                if self.t_kind == "request" and self.t_sock is s and self.f_on:
                    r.append(("reply T", i))
                if self.off_p is not None:
                    r.append(("reply O", i))
            if s.state == CLOSING:
                r.append(("closed", i))
        for i, t in enumerate(m.timers):
            if t.live:
                r.append(("timer", i))
        return r

    def turn(self, mv):
        m = self.m
        k = mv[0]
        m.trace = []
        fresh = False
        opened = False
        try:
            if k in ("request T", "stream T"):
                self.t_kind = k.split()[0]
                if k == "request T":
                    self.sub(F)
                fresh = True
                self.send(T)
            elif k == "listen F":
                self.sub(F)
            elif k == "drop F":
                self.off(F)
            elif k == "request O":
                self.sub(P)
                self.send(O)
            elif k == "stream O":
                self.send(O)
            elif k == "listen O":
                self.sub(P)
            elif k == "drop O":
                self.off(P)
            elif k == "timer":
                t = m.timers[mv[1]]
                t.live = False
                m.call(t.f, UNDEF, [])
            else:
                s = m.sockets[mv[1]]
                ev = JSObj({"type": k, "target": s})
                if k == "open":
                    s.state = OPEN
                    opened = True
                    m.fire(s, "open", ev)
                elif k in ("refuse", "lost", "lost with error", "closed"):
                    err = k == "refuse" or k == "lost with error" or k == "closed" and s.by_client and not s.was_open
                    before = self.key(without=s) if over(s) else None
                    s.state = CLOSED
                    if err:
                        m.fire(s, "error", ev)
                        m.drain()
                    m.fire(s, "close", ev)
                    m.drain()
                    s.gone = True
                    if before is not None and self.key(without=s) != before:
                        self.interferes = True
                elif k == "closing":
                    s.state = CLOSING
                elif k in ("method", "stream", "other"):
                    self.message(s, k)
                elif k == "reply T":
                    self.replied = True
                    self.message(s, "method")
                    self.off(F)
                elif k == "reply O":
                    self.message(s, "method")
                    self.off(P)
            m.drain()
        except Throw as t:
            raise Wrong("an exception is thrown: %r" % (t.v,))
        except Diverges:
            raise Unsupported("the execution does not end")
        if any(f is F for t, f, a in m.trace if t == "call"):
            raise Wrong("a subscription is notified without a message")
        if opened and self.t_kind and not self.t_sent:
            raise Wrong("a message which waited for the socket is not sent when it opens")
        if fresh and not self.t_sent and m.sockets:
            s = m.sockets[-1]
            if s.state == OPEN and not s.by_client:
                raise Wrong("a message is not sent although the connection is open")
        if self.f_on and self.t_kind and not self.t_sent:
            if not any(not s.by_client and s.state != CLOSED for s in m.sockets) and not any(t.live for t in m.timers):
                raise Wrong("a call waits although nothing will open a connection")
        self.normalise()

    interferes = False

    # ---- the abstract state
    def normalise(self):
        m = self.m
        for s in m.sockets:
            if not hasattr(s, "gone"):
                s.gone = False
        self.canon(widen=True)
        # of the sockets which are over one arbitrary is followed (their events must change nothing)
        for s in m.sockets:
            if s.gone or not over(s) or s is self.followed:
                continue
            if self.followed is None and m.choose(2, "is this socket followed") == 0:
                self.followed = s
            else:
                s.gone = True
                self.merged = True
                if s is self.t_sock:
                    self.t_sock = None
        # nothing is known of how many others there are
        for x in self.reach(self.conn, (SetObj, MapObj)):
            for k, (v, how) in list(x.others.items()):
                x.others[k] = (v, "maybe")
        if (self.t_kind == "request" and self.replied or self.t_kind == "stream" and self.t_sent and self.off_f is not None and not self.f_on):
            self.t_sock = None
            if F not in self.reach(self.conn):
                self.done = True

    done = False
    followed = None

    def reach(self, v, kind=Op):
        seen, todo, out = set(), [v], []
        while todo:
            x = todo.pop()
            if isinstance(x, kind):
                out.append(x)
            if isinstance(x, Op):
                continue
            if id(x) in seen:
                continue
            seen.add(id(x))
            todo += self.children(x)
        return out

    def captured(self, f):
        out = []
        for n in sorted(free_names(f.node)):
            e = f.env
            while e is not None and e.parent is not None:
                if n in e.vars:
                    out.append((n, e.vars[n]))
                    break
                e = e.parent
        if "this" in free_names(f.node):
            raise Unsupported("this")
        return out

    def children(self, v):
        if isinstance(v, Cell):
            return [v.v]
        if isinstance(v, Fn):
            return [c for _, c in self.captured(v)] + list(v.props.values())
        if isinstance(v, Nat):
            return list(v.refs) + list(v.props.values())
        if isinstance(v, Arr):
            return [x.v if isinstance(x, (Star, Rest)) else x for x in v.items]
        if isinstance(v, SetObj):
            return list(v.known) + [x for x, _ in v.others.values()]
        if isinstance(v, MapObj):
            return [x for e in v.known for x in e] + [x for x, _ in v.others.values()]
        if isinstance(v, Promise):
            return [x for r in v.reactions for x in r] + ([v.value] if v.state != "pending" else [])
        if isinstance(v, Sock):
            return list(v.props.values()) + [f for _, f in v.listeners]
        if isinstance(v, Timer):
            return [v.f]
        if isinstance(v, JSObj):
            return list(v.props.values())
        if isinstance(v, Length):
            return [v.of]
        if isinstance(v, tsx.Env):
            return [c for _, c in sorted(v.vars.items())]
        return []

    def walk(self, v, num, out, widen=False, name=None):
        """Writes what can be told of a value, numbering objects in the order they are met."""
        w = lambda x, nm=None: self.walk(x, num, out, widen, nm)
        if isinstance(v, Cell):
            k = id(v)
            if k in num:
                out.append("#%d" % num[k])
                return
            num[k] = len(num)
            if widen and name in self.widened and isinstance(v.v, (int, float, Sym)) and not isinstance(v.v, bool):
                v.v = ANY
            out.append("cell(")
            if v.v is tsx.TDZ:
                out.append("tdz")
            else:
                w(v.v)
            out.append(")")
            return
        if v is T:
            out.append("T")
            return
        if not isinstance(v, (JSObj, tsx.Env)):
            if isinstance(v, Sym):
                out.append("number")
            elif isinstance(v, Length):
                out.append("length(")
                w(v.of)
                out.append(")")
            else:
                out.append(repr(v))
            return
        if id(v) in num:
            out.append("#%d" % num[id(v)])
            return
        num[id(v)] = len(num)
        out.append(type(v).__name__ + "(")
        if isinstance(v, Fn):
            out.append("%d:" % v.node.pos)
            for n, c in self.captured(v):
                if c.kind in ("const", "function") and c.v is not tsx.TDZ and not isinstance(c.v, JSObj):
                    continue
                out.append(n + "=")
                w(c, n)
        elif isinstance(v, Nat):
            out.append(v.label)
            for x in v.refs:
                w(x)
        elif isinstance(v, Arr):
            for x in v.items:
                if isinstance(x, Star):
                    out.append("*")
                    w(x.v)
                else:
                    w(x)
                out.append(",")
        elif isinstance(v, SetObj):
            for x in v.known:
                w(x)
                out.append(",")
            out.append(repr(sorted((k, h) for k, (_, h) in v.others.items())))
        elif isinstance(v, MapObj):
            for k, x in v.known:
                w(k)
                out.append(":")
                w(x)
                out.append(",")
            out.append(repr(sorted((k, h) for k, (_, h) in v.others.items())))
        elif isinstance(v, tsx.Symb):
            out.append(str(v.stands))
        elif isinstance(v, Promise):
            out.append(v.state)
            seen = set()
            for f, r, d in v.reactions:
                n2, o2 = dict(num), []
                for x in (f, r, d):
                    self.walk(x, n2, o2)
                k = "".join(o2)
                if k in seen and "T" not in k:
                    continue
                seen.add(k)
                for x in (f, r, d):
                    w(x)
                out.append(";")
            if v.state != "pending":
                w(v.value)
        elif isinstance(v, Sock):
            out.append("%d %s %s %s" % (v.state, v.by_client, v.was_open, v.last) if not over(v) else "over %s" % (v.by_client and not v.was_open))
            if v is self.t_sock:
                out.append(" carries T")
            for k in sorted(v.props):
                out.append(k + "=")
                w(v.props[k])
            for t, f in v.listeners:
                out.append(t + "=")
                w(f)
        elif isinstance(v, Timer):
            out.append(str(v.live))
            if v.live:
                w(v.f)
        elif isinstance(v, tsx.Env):
            for n, c in sorted(v.vars.items()):
                out.append(n + "=")
                w(c, n)
        else:
            for k in sorted(v.props):
                if widen and k in self.widened and isinstance(v.props[k], (int, float)) and not isinstance(v.props[k], bool):
                    v.props[k] = ANY
                out.append(k + "=")
                w(v.props[k])
                out.append(",")
        out.append(")")

    def canon(self, widen=False, without=None):
        num, out = {}, []
        m = self.m
        if without is not None:
            num[id(without)] = 0
        for x in (self.conn, self.off_f, self.off_p):
            self.walk(x if x is not None else UNDEF, num, out, widen)
            out.append("|")
        out.append("%s %s %s %s %s" % (self.t_kind, self.t_sent, self.replied, self.f_on, self.off_f is None))
        rest = [s for s in m.sockets if not s.gone and s is not without] + [t for t in m.timers if t.live]
        todo = []
        for x in rest:
            n2, o2 = dict(num), []
            self.walk(x, n2, o2)
            todo.append(("".join(o2), x))
        todo.sort(key=lambda p: p[0])
        for _, x in todo:
            out.append("|")
            self.walk(x, num, out, widen)
        if m.tasks:
            out.append("tasks")
            for t in m.tasks:
                for x in t:
                    if x is not None:
                        self.walk(x, num, out)
        return "".join(out)

    def key(self, without=None):
        return self.canon(without=without)


def widened_names(stmts):
    out = set()

    def walk(n):
        t = None
        if n.k in ("PostfixUnaryExpression", "PrefixUnaryExpression") and n.operator in ("++", "--"):
            t = n.operand
        if n.k == "BinaryExpression" and n.operator in ("+=", "-=", "*="):
            t = n.left
        if n.k == "BinaryExpression" and n.operator == "=" and n.right.k == "BinaryExpression" and n.right.operator in ("+", "-", "*"):
            t = n.left
        if t is not None:
            if t.k == "Identifier":
                out.add(t.text)
            elif t.k == "PropertyAccessExpression":
                out.add(t.name.text)
        for v in n.__dict__.values():
            if isinstance(v, tsx.Node):
                walk(v)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, tsx.Node):
                        walk(x)
    for s in stmts:
        walk(s)
    return out


class Found(Exception):
    def __init__(self, moves, what):
        self.moves, self.what = moves, what


def fixpoint(stmts, deadline, stats):
    """Every abstract state any history reaches; raises Found for a move after which the contract does not hold."""
    widened = widened_names(stmts)
    start = Run(stmts, widened, [], [])
    seen = {start.key(): True}
    todo = [([], [])]
    merged = interferes = False
    while todo:
        moves, dec = todo.pop(0)
        base = Run(stmts, widened, moves, dec)
        n = len(base.m.taken)
        for mv in base.enabled():
            decisions = list(dec)
            while True:
                if time.time() > deadline:
                    raise Unsupported("time budget after %d states" % len(seen))
                try:
                    r = Run.__new__(Run)
                    err = None
                    try:
                        r.__init__(stmts, widened, moves + [mv], decisions)
                    except Wrong as w:
                        err = w
                    if err is not None:
                        raise Found(moves + [mv], str(err))
                    merged |= r.merged
                    interferes |= r.interferes
                    k = r.key()
                    if k not in seen and not r.done:
                        seen[k] = True
                        todo.append((moves + [mv], [c for c, _, _ in r.m.taken]))
                except Prune:
                    pass
                stats["paths"] += 1
                stats["queries"] += r.m.queries
                stats["solver"] = stats.get("solver", 0.0) + r.m.solver_s
                t = list(r.m.taken)
                while len(t) > n and t[-1][0] + 1 >= t[-1][1]:
                    t.pop()
                if len(t) <= n:
                    break
                decisions = [c for c, _, _ in t[:-1]] + [t[-1][0] + 1]
        if len(seen) > 6000:
            raise Unsupported("the abstract states do not converge")
    if merged and interferes:
        raise Unsupported("events of replaced sockets have effects")
    stats["states"] = len(seen)


def concrete(moves, data):
    """The history as moves of the battery."""
    out = []
    n = 0
    t = None
    listens = {}
    others = []                         # the other subscriptions, as listeners of streams
    o_stream = None
    for mv in moves:
        k = mv[0]
        if k == "request T":
            out.append(["request"])
            t = n
            n += 1
        elif k == "stream T":
            out.append(["stream"])
            t = n
            n += 1
        elif k == "stream O":
            out.append(["stream"])
            o_stream = n
            n += 1
        elif k == "request O":
            out.append(["stream+"])
            others.append((n, 0))
            listens[n] = 1
            n += 1
        elif k == "listen F":
            out.append(["listen", t])
            listens[t] = listens.get(t, 0) + 1
        elif k == "drop F":
            out.append(["drop", t, 0])
        elif k == "listen O":
            if o_stream is None:
                out.append(["stream"])
                o_stream = n
                n += 1
            out.append(["listen", o_stream])
            others.append((o_stream, listens.get(o_stream, 0)))
            listens[o_stream] = listens.get(o_stream, 0) + 1
        elif k in ("drop O", "reply O"):
            if others:
                out.append(["drop"] + list(others.pop(0)))
        elif k in ("method", "stream", "reply T"):
            out.append(["reply", mv[1], t, data] if t is not None else ["stray", mv[1]])
        elif k == "other":
            out.append(["error", mv[1]])
        elif k == "lost with error":
            out.append(["lost", mv[1]])
        else:
            out.append(list(mv))
    return out


def play(job, timeout=300):
    p = subprocess.run(["node", RUN, client_path()], input=json.dumps(job).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if p.returncode != 0:
        return {"cases": 0, "steps": 0, "failures": [], "error": p.stderr.decode("utf8", "replace")[-400:]}
    return json.loads(p.stdout.decode())


CONNECTION = ("the connection: every message is sent exactly once, at once on an open socket and otherwise when the next socket opens; every live "
              "subscription is notified once of each reply; the open connection is kept while a caller waits; a waiting call always has a "
              "connection attempt under way")


def connection_task(prog, deadline):
    stats = {"paths": 0, "queries": 0, "states": 0}
    rec = {"name": CONNECTION, "vcs": 0, "detail": []}
    try:
        stmts = tsx.parse(client_path())
        fixpoint(stmts, deadline, stats)
        rec["status"] = "proved"
        rec["vcs"] = stats["paths"]
        rec["detail"] = ["invariant of %d abstract states, preserved by every move" % stats["states"]]
    except Found as f:
        for data in ({"a": 1}, None, 0, "", False, []):
            h = concrete(f.moves, data)
            r = play({"histories": [h], "random": 0, "length": 0, "seed": 1})
            if r.get("failures"):
                break
        if r.get("failures"):
            rec["status"] = "refuted"
            rec["detail"] = [f.what, "history: %s" % json.dumps(h), "on the real client: " + r["failures"][0]["what"]]
            rec["history"] = h
        else:
            rec["status"] = "undecided"
            rec["detail"] = [f.what, "history: %s" % json.dumps(f.moves), "it does not happen on the real client"]
    except Unsupported as u:
        rec["status"] = "undecided"
        rec["detail"] = ["unsupported: %s" % u]
    return {"records": [rec], "used": {"websocket_client.ts::websocketStore": 1}, "queries": stats["queries"], "solver_s": stats.get("solver", 0.0), "paths": stats["paths"]}


# ---------------------------------------------------------------------------------- the real client
HISTORIES = [
    [["request"], ["open", 0], ["reply", 0, 0], ["request"], ["closed", 0], ["open", 1], ["reply", 1, 1]],
    [["request"], ["open", 0], ["reply", 0, 0], ["request"], ["open", 1], ["closed", 0], ["reply", 1, 1]],
    [["request"], ["refuse", 0], ["timer", 0], ["open", 1], ["reply", 1, 0]],
    [["request"], ["request"], ["stream+"], ["open", 0], ["reply", 0, 2], ["reply", 0, 1], ["reply", 0, 0], ["reply", 0, 2]],
    [["stream+"], ["request"], ["open", 0], ["reply", 0, 1], ["reply", 0, 0], ["drop", 0, 0], ["request"]],
    [["stream"], ["refuse", 0], ["listen", 0]],
    [["stream+"], ["drop", 0, 0], ["listen", 0]],
    [["request"], ["open", 0], ["lost", 0], ["timer", 0], ["open", 1], ["request"], ["reply", 1, 1]],
    [["request"], ["open", 0], ["closing", 0], ["request"], ["open", 1], ["closed", 0], ["reply", 1, 1]],
    [["stream"], ["listen", 0, "once"], ["listen", 0], ["open", 0], ["reply", 0, 0], ["reply", 0, 0]],
    [["request, then another"], ["open", 0], ["reply", 0, 0], ["reply", 0, 1]],
    [["request"], ["open", 0], ["stray", 0], ["error", 0], ["request"], ["reply", 0, 1]],
    [["request"], ["refuse", 0], ["request"], ["refuse", 1], ["timer", 1], ["open", 2]],
    [["request"]] + [m for k in range(8) for m in (["refuse", k], ["timer", k])] + [["open", 8], ["reply", 8, 0]],
]
for _d in (None, 0, False, "", [], {"a": None}):
    HISTORIES.append([["request"], ["stream+"], ["open", 0], ["reply", 0, 0, _d], ["reply", 0, 1, _d]])
# many calls waiting for one socket, many callers at once, long replies
HISTORIES.append([["request"]] * 160 + [["open", 0]] + [["reply", 0, k, k] for k in range(160)])
HISTORIES.append([["stream+"]] * 90 + [["open", 0], ["request"]] + [["reply", 0, k, k] for k in range(91)])
HISTORIES.append([["stream+"]] + [["listen", 0]] * 70 + [["open", 0], ["reply", 0, 0, 1], ["reply", 0, 0, 2]])
HISTORIES.append([["request"], ["stream+"], ["open", 0], ["reply", 0, 0, "x" * 3000000], ["reply", 0, 1, ["y" * 3000000]], ["reply", 0, 1, list(range(70000))]])
HISTORIES.append([["request"], ["open", 0]] + [["reply", 0, 0, 1]] + [m for k in range(1, 40) for m in (["request"], ["closed", k - 1], ["open", k], ["reply", k, k, k])])


def battery(seed, tier):
    n = 3000 if tier == "quick" else 40000
    r = play({"histories": HISTORIES, "random": n, "length": 25, "seed": seed}, 700)
    r["bound"] = "%d fixed histories and %d pseudo-random ones (seed %d) of up to 25 moves of callers, sockets and timers, in node with a scripted WebSocket" % (len(HISTORIES), n, seed)
    r["samples"] = [json.dumps(h) for h in HISTORIES[:3]]
    return r


def confirm(refuted, log):
    out = []
    for x in refuted:
        h = x.get("history")
        if h:
            r = play({"histories": [h], "random": 0, "length": 0, "seed": 1})
            log.append({"history": h, "result": r})
            out += r.get("failures", [])
    return out


def c22():
    return Check("C22", [Task("calls", calls_task), Task("the connection", connection_task), Task("get", get_task)],
                 [Battery("histories of the real client", battery)], confirm,
                 ["the TypeScript compiler's parser (the tree is its own; types are dropped)",
                  "the WHATWG WebSocket contract: messages are delivered in the state OPEN only; open, error and close are events of their own; send throws while connecting",
                  "the JavaScript semantics of zv/tsx.py (closures, promises and microtasks, Set, Array, JSON)",
                  "JSON.stringify and JSON.parse are inverse on the messages (the envelope itself is C18)",
                  "a callback of a caller does not call back into the client before it returns (the battery does)"])
