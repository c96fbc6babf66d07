"""Effects of the server code: calls of methods, messages, tasks and the table of subscriptions.

What happens is recorded in order in `it.events`; what the outside decides (does a value have a JSON form, is the receiver
gone, does a stream yield another item) is decided anew on every path."""
import z3
from core import *
from interp import FCtx, Env
from ts import Mismatch

IntS = z3.IntSort()
BoolS = z3.BoolSort()


class IterationEnd(Exception):
    """The arbitrary iteration of a loop is over and another one follows."""


class TokMap:
    """std::collections::HashMap<usize, JoinHandle>: an array of handles, 0 where there is none."""

    def __init__(self, arr):
        self.arr = arr
        self.start = arr


def flag(name, *args):
    return z3.Bool("%s:%s" % (name, ",".join(map(repr, args))))


def result(cond, ok, err_):
    return SymEnum("Result", z3.If(cond, 0, 1), [("Ok", lambda: (ok(),)), ("Err", lambda: (err_(),))])


def option(cond, v):
    return SymEnum("Option", z3.If(cond, 1, 0), [("None", lambda: ()), ("Some", lambda: (v(),))])


def show(v):
    return repr(v)


# adaptors of streams; True: with the same items
ADAPTORS = {"fuse": True, "boxed": True, "boxed_local": True, "peekable": True, "take": False, "skip": False, "take_while": False, "skip_while": False,
            "step_by": False, "chunks": False, "ready_chunks": False, "chain": False, "cycle": False}


class Effects:
    def __init__(self, it):
        self.it = it
        self.tables = []
        self.calls = {}
        it.events = []
        it.loop_over = self.each
        it.extra_methods.append(self.method)
        ext = it.extra_ext
        ext["serde_json::to_value"] = self.to_value
        ext["serde_json::to_string"] = self.to_string
        ext["serde_json::from_value"] = lambda it, a, want, fc: self.decode(a[0], self.targ(0))
        ext["serde_json::from_str"] = lambda it, a, want, fc: self.decode(Obj("json", ("text", show(it.deref(a[0])))), self.targ(0))
        ext["Deserialize::deserialize"] = self.deserialize
        ext["Error::custom"] = lambda it, a, want, fc: Obj("json_err", ("custom",))
        ext["tokio::spawn"] = self.spawn
        ext["StreamExt::next"] = lambda it, a, want, fc: Obj("next", (self.stream_of(a[0]),))
        ext["thread::panicking"] = lambda it, a, want, fc: flag("panicking")
        for n in ADAPTORS:
            ext["StreamExt::" + n] = lambda it, a, want, fc, n=n: self.adapted(n, a)
        it.decoders = []

    def adapted(self, n, args):
        """A stream made of another one: the same (fused, boxed), or one with other items."""
        v = self.it.deref(args[0])
        if not isinstance(v, Obj):
            return NotImplemented
        return v if ADAPTORS[n] else Obj("adapted", (n, v))

    def reset(self):
        self.it.events[:] = []
        self.it.ctx.seq  # numbering of the context restarts by itself
        self.n = 0
        self.script = None

    def emit(self, *e):
        self.it.events.append(e)

    def number(self):
        self.n += 1
        return self.n

    def targ(self, i):
        t = self.it.m.cur_targs
        if t is None:
            return None
        t = t[1] if isinstance(t, tuple) and len(t) == 2 and isinstance(t[1], (list, tuple)) else t
        return t[i] if t and len(t) > i and t[i] != ("infer",) else None

    # ---- JSON
    def to_value(self, it, args, want, fc):
        v = it.deref(args[0])
        k = show(v)
        return result(flag("has_json", k), lambda: Obj("json", ("of", k)), lambda: Obj("json_err", ("to", k)))

    def to_string(self, it, args, want, fc):
        v = it.deref(args[0])
        return result(flag("has_json", "text"), lambda: S(Hole("json_text", (v,))), lambda: Obj("json_err", ("text",)))

    def decode(self, v, t):
        """Result of reading a JSON value as a value of type t (None: not known yet)."""
        v = self.it.deref(v)
        if t is None:
            return Obj("undecoded", (v,))
        return self.decode_as(v, t)

    def decode_as(self, v, t):
        it = self.it
        for f in it.decoders:
            r = f(v, t)
            if r is not NotImplemented:
                return r
        if t[0] == "adt" and isinstance(t[1], Defn_):
            h = it.find_trait_item(t, "Deserialize", "deserialize")
            if h is not None:
                return it.call_defn(h[2], [Obj("deserializer", (v,))], t, h[0], dict(h[1]))
            return self.derived(v, t[1])
        raise Unsupported("reading %r" % (t,))

    def derived(self, v, d):
        """What a derived Deserialize reads from a JSON value."""
        import serde_model
        r = serde_model.of(self.it, d, "deserialize")
        if r.repr != "struct" or r.style != "named" or r.deny or r.transparent or r.default:
            raise Unsupported("reading %s" % d.name)
        names = []
        vals = {}
        fc = FCtx(d.module)
        for f in r.fields:
            if f.flatten or f.skip or f.default or f.by or f.with_ or f.aliases:
                continue
            t = self.it.type_val(f.ty, fc)
            if t not in (("str",), ("string",)) and not (f.ty.kind == "path" and f.ty.segs[-1][0] == "String"):
                raise Unsupported("reading %s.%s" % (d.name, f.rust))
            names.append(f.name.const())
            vals[f.rust] = S(Hole("json_field", (show(v), f.name.const())))
        for f in r.fields:
            if f.rust in vals:
                continue
            if not f.flatten or f.ty.kind != "path" or f.ty.segs[-1][0] != "Value":
                raise Unsupported("reading %s.%s" % (d.name, f.rust))
            vals[f.rust] = Obj("json", ("rest", show(v), tuple(names)), {"of": v})
        return result(flag("has", show(v), *names), lambda: ok_struct(d, vals), lambda: Obj("json_err", ("from", show(v))))

    def deserialize(self, it, args, want, fc):
        d = it.deref(args[0])
        if not (isinstance(d, Obj) and d.kind == "deserializer"):
            raise Unsupported("deserialize")
        w = it.m.cur_want
        if w is not None and w.kind == "tryof":
            w = w.inner
        return self.decode(d.args[0], it.type_val(w, fc) if w is not None else None)

    # ---- tasks
    def spawn(self, it, args, want, fc):
        n = self.number()
        h = Obj("join", (z3.IntVal(1000 + n),), {"future": it.deref(args[0])})
        self.emit("spawn", h)
        return h

    def stream_of(self, v):
        v = self.it.deref(v)
        if not isinstance(v, Obj):
            raise Unsupported("next item of %r" % (v,))
        return v

    # ---- methods
    def method(self, it, v, name, getargs, n, place):
        if name == "$macro":
            return self.macro(v, getargs)
        if name == "$while" or name == "$loop":
            return self.loop(v, name, *getargs)
        if isinstance(v, Obj):
            h = getattr(self, "m_" + v.kind, None)
            if h is not None:
                return h(v, name, getargs, n)
        if isinstance(v, TokMap):
            return self.table(v, name, getargs)
        return NotImplemented

    def macro(self, n, getargs):
        name = n.name
        if name in ("warn", "debug", "info", "trace", "error"):
            if n.toks and not all(t.k in ("p", "id", "str", "int") for t in n.toks):
                raise Unsupported("arguments of %s!" % name)
            return UNIT
        if name == "pin_mut":
            return UNIT
        return NotImplemented

    def m_sender(self, v, name, getargs, n):
        if name in ("unbounded_send", "start_send"):
            x = self.it.deref(getargs()[0])
            k = self.number()
            self.emit("send", v, x, k)
            return result(flag("sent", k), lambda: UNIT, lambda: Obj("send_err"))
        if name == "send":
            return Obj("sending", (v, self.it.deref(getargs()[0])))
        if name in ("clone", "by_ref", "as_ref"):
            return v
        if name == "is_closed":
            return flag("closed", self.number())
        return NotImplemented

    def m_sending(self, v, name, getargs, n):
        if name == "$await":
            k = self.number()
            self.emit("send", v.args[0], v.args[1], k)
            return result(flag("sent", k), lambda: UNIT, lambda: Obj("send_err"))
        return NotImplemented

    def m_join(self, v, name, getargs, n):
        if name == "abort":
            self.emit("abort", v)
            return UNIT
        if name == "is_finished":
            return flag("finished", v.args[0])
        return NotImplemented

    def m_undecoded(self, v, name, getargs, n):
        if name == "$ready":
            t = getargs()[0]
            return NotImplemented if t is None else self.decode_as(v.args[0], t)
        if name == "map":
            f = getargs()[0]
            x = Obj("decoded", v.args)
            r = self.it.deref(self.it.call(f, [x]))
            if isinstance(r, EnumV) and isinstance(r.payload, tuple) and len(r.payload) == 1 and \
                    self.it.deref(r.payload[0]) is x and isinstance(r.defn, Defn_):
                for w in r.defn.node.variants:
                    if w.kind == "variant" and w.name == r.variant and w.style == "tuple":
                        t = self.it.type_val(w.fields[0].ty, FCtx(r.defn.module))
                        y = self.it.m.force_enum(self.decode_as(v.args[0], t))
                        if y.variant == "Ok":
                            return ok(self.it.deref(self.it.call(f, [y.payload[0]])))
                        return y
        return NotImplemented

    def m_next(self, v, name, getargs, n):
        if name == "$await":
            st = v.args[0]
            k = self.number()
            self.emit("next", st, k)
            if self.script:
                x = self.script.pop()
                return NONE if x is None else some(x)
            return option(flag("another", k), lambda: Obj("item", (st, k)))
        return NotImplemented

    def m_json_err(self, v, name, getargs, n):
        if name == "$into":
            return self.into_error(v)
        if name in ("to_string",):
            return S(Hole("err_text", (v,)))
        if name == "$display":
            return S(Hole("err_text", (v,)))
        return NotImplemented

    def into_error(self, v):
        """thiserror: the variant with #[from] serde_json::Error."""
        ds = list(error_enums(self.it.prog))
        if len(ds) != 1:
            raise Unsupported("conversion into an error")
        d, var = ds[0]
        return EnumV(d.name, var, (v,), d)

    def table(self, m, name, getargs):
        it = self.it
        if name == "insert":
            k, h = [it.deref(x) for x in getargs()]
            old = z3.Select(m.arr, k)
            m.arr = z3.Store(m.arr, k, handle(h))
            return option(old > 0, lambda: Obj("join", (old,)))
        if name == "remove":
            k = it.deref(getargs()[0])
            old = z3.Select(m.arr, k)
            m.arr = z3.Store(m.arr, k, z3.IntVal(0))
            return option(old > 0, lambda: Obj("join", (old,)))
        if name in ("shrink_to_fit", "shrink_to", "reserve"):       # capacity is no part of the contents
            [it.deref(x) for x in getargs()]
            return UNIT
        if name == "contains_key":
            return z3.Select(m.arr, it.deref(getargs()[0])) > 0
        if name in ("get", "get_mut"):
            old = z3.Select(m.arr, it.deref(getargs()[0]))
            return option(old > 0, lambda: Obj("join", (old,)))
        if name in ("drain", "into_iter", "iter", "values", "into_values", "iter_mut", "values_mut"):
            if m.arr is not m.start:
                raise Unsupported("iteration of a changed table")
            b = Base("table", (), None)
            it.ctx.fact_path(b.n >= 0)
            key = z3.Function("table_key", IntS, IntS)

            def entry(e):
                j = Obj("join", (z3.Select(m.arr, key(e.idx)),))
                return [One(j if "values" in name else TupleV([key(e.idx), j]))]
            if name == "drain":
                m.drained = True
            return SeqV([Comp(b, entry, True)], "iter")
        if name == "clear":
            m.arr = z3.K(IntS, z3.IntVal(0))
            return UNIT
        return NotImplemented

    # ---- loops
    def loop(self, n, kind, env, fc):
        """One arbitrary iteration: the loop's own state may not change from one to the next."""
        it = self.it
        label = getattr(n, "label", None)
        before = boxes(env)
        e = Env(env)
        self.emit("loop", "begin")
        if kind == "$while" and not it.cond(n.c, e, fc):
            self.emit("loop", "end")
            return UNIT
        try:
            it.eval(n.body, e, fc)
        except Continue as x:
            if x.label is not None and x.label != label:
                raise
        except Break as x:
            if x.label is not None and x.label != label:
                raise
            self.emit("loop", "break")
            return x.v if kind == "$loop" else UNIT
        for b, v in before:
            if b.v is not v and repr(b.v) != repr(v):
                raise Unsupported("a loop changes a variable")
        raise IterationEnd()

    def each(self, p, step):
        """A loop over the table: what it does for an arbitrary entry; it stops at none."""
        if p.base.fn != "table":
            return False
        ev = self.it.events
        mark = len(ev)
        e = self.it.ctx.new_elem(p.base, "entry")
        n = 0
        for q in p.body(e):
            if not isinstance(q, One):
                raise Unsupported("loop over nested sequence")
            try:
                step(q.v)
            except (Break, Return):
                raise Mismatch("a loop over the table ends early")
        done = ev[mark:]
        del ev[mark:]
        self.emit("each", p.base, e, done)
        return True


def boxes(env):
    out = []
    e = env
    while e is not None:
        for b in e.vars.values():
            out.append((b, b.v))
        e = e.parent
    return out


def ok_struct(d, vals):
    return StructV(d.name, vals, d)


def handle(h):
    if isinstance(h, Obj) and h.kind == "join":
        return h.args[0]
    raise Unsupported("a handle: %r" % (h,))


def modules(m):
    yield m
    for ds in m.items.values():
        for d in ds:
            if d.kind == "mod" and d.target is not m.parent:
                yield from modules(d.target)


def error_enums(prog):
    """(enum, variant) converted from a serde_json error."""
    for m in modules(prog.crates["zod_core"]):
        for ds in m.items.values():
            for d in ds:
                if d.kind != "enum":
                    continue
                for v in d.node.variants:
                    if v.kind != "variant" or len(v.fields) != 1:
                        continue
                    f = v.fields[0]
                    if any(a and a[0].k == "id" and a[0].v == "from" for a in f.attrs) and \
                            [s[0] for s in f.ty.segs][-2:] == ["serde_json", "Error"]:
                        yield d, v.name


import program
Defn_ = program.Defn
