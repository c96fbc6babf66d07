"""Checks of the registries (C17) and of the assembly of the client from them (C07)."""
import z3
from core import *
from interp import Interp, FCtx, Env, MapV
from driver import Task, Battery, Check
from p_core import runner
import map_model as MM
import rpc_battery as RB
import ts
from ts import Mismatch
from p_rpc import view_model, one_fn, self_ty, call, ASSUME

IntS = z3.IntSort()


def reg_model(it):
    """ZodType of the registered types: opaque, with documentation or none, declared as an interface or a type."""
    td = [d for d in it.prog.find("TsTypeDef")] if hasattr(it.prog, "find") else []

    def model(t, name, args):
        if args != "?" and name in ("docs", "type_def"):
            o = t[1]
            k = (o.kind,) + tuple(o.args)
            if name == "docs":
                tag = z3.Function("has_docs", IntS, z3.BoolSort())(*o.args)
                return SymEnum("Option", z3.If(tag, 1, 0), [("None", lambda: ()), ("Some", lambda: (S(Hole("docs", k)),))])
            tag = z3.Function("is_interface", IntS, z3.BoolSort())(*o.args)
            return SymEnum("TsTypeDef", z3.If(tag, 0, 1), [("Interface", lambda: (S(Hole("type_def", k)),)),
                                                           ("Type", lambda: (S(Hole("type_def", k)),))], defn=ts_def(it))
        return view_model(t, name, args)
    return model


def ts_def(it):
    ds = [im for im in it.prog.impls if im.trait_name == "Display" and "TsTypeDef" in repr(it.type_val(im.ty, FCtx(im.module)))]
    return it.type_val(ds[0].ty, FCtx(ds[0].module))[1]


class World:
    """Arbitrary sequences of registered types and RPC members."""

    def __init__(self, it, prog):
        self.it = it
        it.trait_models["ZodType"] = reg_model(it)
        self.types = Base("inventory:types", (), None)
        self.rpcs = Base("inventory:rpc", (), None)
        it.ctx.assume(z3.And(self.types.n >= 0, self.rpcs.n >= 0))
        new = one_fn(prog, "NamespaceMemberDefinition::new_for")
        rpc = self_ty(it, one_fn(prog, "RpcMember::decl"))[1]
        nst = self_ty(it, new)

        def type_at(e):
            t = ("obj", Obj("RegTy", (e.idx,)))
            return [One(it.deref(it.call_defn(new, [self.ns(e.idx), self.name(e.idx)], nst, new.impl, None, [t])))]

        def rpc_at(e):
            f = {"ns_name": self.rns(e.idx), "name": S(Hole("rpc_name", (e.idx,))), "args": PyFn(lambda: SeqV([], "vec")),
                 "res": PyFn(lambda: S(Hole("rpc_res", (e.idx,))))}
            tag = z3.Function("is_stream", IntS, IntS)(e.idx)
            it.ctx.fact_path(z3.And(tag >= 0, tag <= 1))
            return [One(SymEnum(rpc.name, tag, [("Method", lambda: f), ("Stream", lambda: f)], ("rpc", e.idx), rpc))]

        def iter_(it, args, want, fc):
            t = it.m.cur_targs[1][0]
            n = t[1] if isinstance(t[1], str) else t[1].name
            if n == "NamespaceMemberDefinition":
                return SeqV([Comp(self.types, type_at, True)], "iter")
            if n == "RpcMember":
                return SeqV([Comp(self.rpcs, rpc_at, True)], "iter")
            raise Unsupported("inventory of %s" % n)
        it.extra_ext["inventory::iter"] = iter_

        # contracts of RpcMember (discharged as obligations of their own)
        def idx_of(v):
            v = it.deref(v)
            if isinstance(v, SymEnum) and isinstance(v.key, tuple) and v.key[0] == "rpc":
                return v.key[1]
            raise Unsupported("an RPC member which was not registered")

        def decl(it, d, args, st, ty):
            return S(Hole("decl", (idx_of(args[0]),)))

        def ns_name(it, d, args, st, ty):
            return self.rns(idx_of(args[0]))
        it.contracts[one_fn(prog, "RpcMember::decl").qual()] = decl
        it.contracts[one_fn(prog, "RpcMember::ns_name").qual()] = ns_name
        self.idx_of = idx_of

        def ns_model(t, name, args):
            if args == "?":
                return name in ("NAME", "members", "docs")
            if name == "NAME":
                return S(Hole("NAME"))
            raise Unsupported("Namespace::" + name)
        it.trait_models["Namespace"] = ns_model

        def be_model(t, name, args, tyargs=None):
            if args == "?":
                return name in ("NS_NAMES", "generate_with_options", "rpc_members", "zod_namespaces", "generate")
            if name == "NS_NAMES":
                return Obj("NS_NAMES")
            return it.call_defn(one_fn(prog, "Backend::" + name), args, t, None, None, tyargs)
        it.trait_models["Backend"] = be_model

        def in_ns(it, v, name, getargs, n, place):
            if isinstance(v, Obj) and v.kind == "NS_NAMES":
                if name == "contains":
                    return self.listed(it.m.to_s(getargs()[0]))
                if name == "iter":
                    return Obj("NS_NAMES.iter")
            if isinstance(v, Obj) and v.kind == "NS_NAMES.iter":
                if name in ("copied", "cloned", "into_iter", "by_ref"):
                    return v
                if name in ("any", "all"):
                    # only a test for equality with one name
                    m = S(Hole("a_listed_name"))
                    r = it.call(getargs()[0], [m])
                    neg = False
                    while z3.is_expr(r) and z3.is_not(r):
                        r, neg = r.arg(0), not neg
                    mt = MM.term(it.m, m)
                    if z3.is_expr(r) and z3.is_eq(r) and neg == (name == "all"):
                        a, b = r.arg(0), r.arg(1)
                        if a.eq(mt) != b.eq(mt):
                            f = z3.Function("listed", IntS, z3.BoolSort())(b if a.eq(mt) else a)
                            return f if name == "any" else z3.Not(f)
                raise Unsupported("iteration of NS_NAMES")
            return NotImplemented
        it.extra_methods.append(in_ns)

        def client(t, name, args):
            if args == "?":
                return name == "get"
            return S(Hole("prelude"))
        it.trait_models["ClientCodegen"] = client

    def ns(self, i):
        return S(Hole("reg_ns", (i,)))

    def name(self, i):
        return S(Hole("reg_name", (i,)))

    def rns(self, i):
        return S(Hole("rpc_ns", (i,)))

    def listed(self, s):
        t = MM.term(self.it.m, s)
        return z3.Function("listed", IntS, z3.BoolSort())(t)

    def ident(self, v):
        """(kind, index) of a registered item."""
        v = self.it.deref(v)
        if isinstance(v, SymEnum):
            return "rpc", self.idx_of(v)
        if isinstance(v, S) and len(v.parts) == 1 and isinstance(v.parts[0], Hole) and v.parts[0].fn == "decl":
            return "decl", v.parts[0].args[0]
        if isinstance(v, StructV):
            for x in v.fields.values():
                x = self.it.deref(x)
                if isinstance(x, S) and len(x.parts) == 1 and isinstance(x.parts[0], Hole) and x.parts[0].fn == "reg_name":
                    return "type", x.parts[0].args[0]
        raise Unsupported("not a registered item: %r" % (v,))


def outcomes(it, fn):
    n = 0
    for conds, kind, r in it.ctx.explore(fn):
        if kind != "ok":
            raise Mismatch("%s: %s" % (kind, r))
        n += 1
    return n


def holds(it, f):
    return it.ctx.must(MM.bz(f))


def selection(it, w, seq, base, kind, member, what):
    """seq holds, in registration order, exactly the elements of base for which member(index), each once."""
    parts = it.ctx.norm(seq)
    if len(parts) != 1 or not isinstance(parts[0], Comp):
        if not parts:
            raise Mismatch("%s is always empty" % what)
        raise Unsupported("%s: %r" % (what, parts))
    c = parts[0]
    if not it.ctx._same_base(c.base, base):
        raise Mismatch("%s is made of something else than the registered items" % what, False)
    if c.rev:
        raise Mismatch("%s is in reverse order" % what)

    def one():
        e = it.ctx.new_elem(base, "m")
        xs = c.body(e)
        if not xs:
            if not holds(it, z3.Not(MM.bz(member(e.idx)))):
                raise Mismatch("%s leaves out a registered item" % what)
            return
        if len(xs) != 1 or not isinstance(xs[0], One):
            raise Mismatch("%s holds an item more than once" % what)
        k, i = w.ident(xs[0].v)
        if k != kind or not holds(it, i == e.idx):
            raise Mismatch("%s holds another item" % what)
        if not holds(it, member(e.idx)):
            raise Mismatch("%s holds an item of another namespace" % what)
    return outcomes(it, one)


def eqs(it, a, b):
    return it.m.s_eq(it.m.to_s(a), it.m.to_s(b))


def map_view(it, w, m, base, kind, ns, allowed, what):
    """The map has exactly the (allowed) namespaces of the items as keys, each with its items in order."""
    if not isinstance(m, MapV):
        raise Unsupported("%s is no map" % what)
    n = 0
    # keys
    for p in m.srcs:
        if isinstance(p, One):
            raise Mismatch("%s always has the key %r" % (what, p.v.fields["key"]))
        if not it.ctx._same_base(p.base, base):
            raise Unsupported("%s: keys of something else" % what)

        def one(p=p):
            e = it.ctx.new_elem(base, "k")
            for q in p.body(e):
                k = q.v.fields["key"]
                if not holds(it, z3.And(MM.bz(eqs(it, k, ns(e.idx))), MM.bz(allowed(ns(e.idx))))):
                    raise Mismatch("%s has a key which is not a namespace of its items" % what)
        n += outcomes(it, one)
    # values
    K = S(Hole("some_ns"))

    def val():
        v = MM.value_at(it.m, m, K)
        selection(it, w, v, base, kind, lambda i: z3.And(MM.bz(eqs(it, ns(i), K)), MM.bz(allowed(ns(i)))), what)
    return n + outcomes(it, val)


def views_task(prog, deadline):
    def body(it, attempt):
        w = World(it, prog)
        N = ("obj", Obj("N"))
        B = ("obj", Obj("B"))
        name = S(Hole("NAME"))

        def fn(q, st):
            return it.deref(it.call_defn(one_fn(prog, q), [], st, None, None, None))

        def go(f):
            def run():
                box = []
                n = outcomes(it, lambda: box.append(f()))
                return n + sum(x or 0 for x in box)
            return run
        attempt("Namespace::members: every type registered under the namespace, once, in order, and no other", go(lambda: selection(
            it, w, fn("Namespace::members", N), w.types, "type", lambda i: eqs(it, w.ns(i), name), "members()")))
        attempt("RpcNamespace::rpc_members: every member registered under the namespace, once, and no other", go(lambda: selection(
            it, w, fn("RpcNamespace::rpc_members", N), w.rpcs, "rpc", lambda i: eqs(it, w.rns(i), name), "RpcNamespace::rpc_members()")))

        def collect():
            d = one_fn(prog, "NamespaceMemberDefinition::collect")
            return map_view(it, w, it.deref(it.call_defn(d, [], self_ty(it, d), d.impl, None, None)), w.types, "type", w.ns,
                            lambda s: True, "collect()")
        attempt("NamespaceMemberDefinition::collect: every registered type once under its namespace", go(collect))
        attempt("Backend::zod_namespaces: every type of the backend's namespaces once under its namespace, and no other", go(
            lambda: map_view(it, w, fn("Backend::zod_namespaces", B), w.types, "type", w.ns, w.listed, "zod_namespaces()")))
        attempt("Backend::rpc_members: the declaration of every member of the backend's namespaces once under its namespace", go(
            lambda: map_view(it, w, fn("Backend::rpc_members", B), w.rpcs, "decl", w.rns, w.listed, "rpc_members()")))

        def acc():
            d = one_fn(prog, "NamespaceMemberDefinition::new_for")
            t = ("obj", Obj("RegTy", (z3.Int("i"),)))
            i = t[1].args[0]
            v = it.deref(it.call_defn(d, [w.ns(i), w.name(i)], self_ty(it, d), d.impl, None, [t]))
            T = ts.TS(it)

            def m(n):
                return it.m.method(v, n, [], None, None)
            T.strict(it.m.to_s(m("namespace")), w.ns(i))
            T.strict(it.m.to_s(m("name")), w.name(i))
            T.strict(it.m.to_s(m("schema")), S(Hole("schema", ("RegTy", i))))
            x = it.m.force_enum(m("type_def"))
            if not holds(it, z3.Function("is_interface", IntS, z3.BoolSort())(i) == z3.BoolVal(x.variant == "Interface")):
                raise Mismatch("type_def() is another kind of definition")
            T.strict(it.m.to_s(x.payload[0]), S(Hole("type_def", ("RegTy", i))))
        attempt("NamespaceMemberDefinition::new_for: namespace, name, schema and type of the given type", lambda: outcomes(it, acc))
    return runner(prog, deadline, body)


# ---------------------------------------------------------------- C07
def options(it, prog):
    gen = one_fn(prog, "Backend::generate_with_options")
    ps = [p for p in gen.node.params if p.kind == "param"]
    d = it.type_val(ps[0].ty, FCtx(gen.module))[1]
    return StructV(d.name, {f.name: S(Hole("option", (f.name,))) for f in d.node.fields}, d)


def opt(n):
    return Hole("option", (n,))


def type_block(it, i):
    """The schema constant and the type declaration of a registered type."""
    k = ("RegTy", i)
    docs = S(Hole("docs", k)) if it.ctx.branch(z3.Function("has_docs", IntS, z3.BoolSort())(i)) else S()
    nm = Hole("reg_name", (i,))
    out = [docs, "export const ", opt("prefix_schema"), nm, opt("suffix_schema"), " = ", Hole("schema", k), "\n"]
    if it.ctx.branch(z3.Function("is_interface", IntS, z3.BoolSort())(i)):
        out += [docs, "export interface ", opt("prefix_interface"), nm, opt("suffix_interface"), " ", Hole("type_def", k)]
    else:
        out += [docs, "export type ", opt("prefix_type"), nm, opt("suffix_type"), " = ", Hole("type_def", k), ";"]
    return S(*(out + ["\n\n"]))


def generate_task(prog, deadline):
    def body(it, attempt):
        w = World(it, prog)
        B = ("obj", Obj("B"))
        C = ("obj", Obj("C"))
        T = ts.TS(it)
        gen = one_fn(prog, "Backend::generate_with_options")

        def gone():
            d = one_fn(prog, "Backend::generate")
            seen = []

            def c(it, d, args, st, ty):
                seen.append((args, st, ty))
                return S(Hole("generated"))
            it.contracts[gen.qual()] = c
            try:
                def run():
                    seen.clear()
                    r = it.m.to_s(it.deref(it.call_defn(d, [], B, None, None, [C])))
                    T.strict(r, S(Hole("generated")))
                    if len(seen) != 1 or seen[0][1] != B or list(seen[0][2] or []) != [C]:
                        raise Mismatch("generate() generates for another backend or client")
                    o = it.deref(seen[0][0][0])
                    if not (isinstance(o, Obj) and o.kind == "default"):
                        raise Unsupported("options of generate()")
                return outcomes(it, run)
            finally:
                del it.contracts[gen.qual()]
        attempt("Backend::generate: generates with the default options for the same backend and client", gone)

        def whole():
            def run():
                r = it.m.to_s(it.deref(it.call_defn(gen, [options(it, prog)], B, None, None, [C])))
                client_spec(it, w, T, r)
            return outcomes(it, run)
        attempt("Backend::generate_with_options: the prelude, then one block per namespace of the backend with content, holding the "
                "constant and the type of each of its types and each of its RPC members once", whole)
    return runner(prog, deadline, body)


def client_spec(it, w, T, r):
    ps = [p for p in r.parts if p != ""]
    if not ps or not (isinstance(ps[0], Hole) and ps[0].fn == "prelude"):
        raise Mismatch("the client does not start with the prelude: %r" % (ps[:1],))
    if len(ps) != 2 or not isinstance(ps[1], Join) or ps[1].sep != "":
        raise Unsupported("structure of the client: %r" % (ps[1:],))
    parts = it.ctx.norm(ps[1].seq)
    if len(parts) != 1 or not isinstance(parts[0], Comp) or parts[0].base.fn not in MM.MAPS:
        raise Unsupported("the blocks are not made of a map")
    c = parts[0]
    m = MM.MAPS[c.base.fn]
    # one block per key
    def block():
        e = it.ctx.new_elem(c.base, "b")
        xs = c.body(e)
        if len(xs) != 1 or not isinstance(xs[0], One):
            raise Mismatch("a namespace with content has %d blocks" % len(xs))
        k = MM.key_at(c.base, e.idx)
        types = Comp(w.types, lambda t: [One(type_block(it, t.idx))] if it.truth(both(it, eqs(it, w.ns(t.idx), k), w.listed(k))) else [], False)
        rpcs = Comp(w.rpcs, lambda t: [One(S(Hole("decl", (t.idx,))))] if it.truth(both(it, eqs(it, w.rns(t.idx), k), w.listed(k))) else [], False)
        want = S("export namespace ", k, " { ", Join("", SeqV([types])), Join("", SeqV([rpcs])), " }")
        same_text(it, T, w, it.m.to_s(xs[0].v), want, k)
    outcomes(it, block)
    keys_are(it, w, m)


def docs_task(prog, deadline):
    """C16: the comment of a type stands directly before each of its declarations in the client."""
    def body(it, attempt):
        w = World(it, prog)
        T = ts.TS(it)
        gen = one_fn(prog, "Backend::generate_with_options")

        def element(p):
            e = it.ctx.new_elem(p.base, "d")
            xs = p.body(e)
            if not xs:
                return
            toks = words(it, T, text_of(it, xs))
            own = ("RegTy", e.idx)
            docs = [isinstance(t[1], tuple) and len(t[1]) == 1 and isinstance(t[1][0], Hole) and t[1][0].fn == "docs" if t[0] == "w" else False
                    for t in toks]
            for t, d in zip(toks, docs):
                if d and repr(t[1][0]) != repr(Hole("docs", own)):
                    raise Mismatch("the comment of another type")
            if len(xs) > 1 or any(t[0] in ("j", "x") for t in toks):
                raise Unsupported("text of a type")
            has = it.ctx.branch(z3.Function("has_docs", IntS, z3.BoolSort())(e.idx))
            exports = [i for i, t in enumerate(toks) if t[0] == "w" and t[1] == ("export",)]
            if not exports:
                raise Unsupported("declarations of a type")
            if has:
                for i in exports:
                    if i == 0 or not docs[i - 1]:
                        raise Mismatch("no comment directly before `%s`" % " ".join("".join(map(str, t[1])) for t in toks[i:i + 2]))
            if sum(docs) != (len(exports) if has else 0):
                raise Mismatch("a comment which belongs to no declaration")

        def run():
            r = it.m.to_s(it.deref(it.call_defn(gen, [options(it, prog)], ("obj", Obj("B")), None, None, [("obj", Obj("C"))])))
            seen = [0]
            for p in r.parts:
                if not isinstance(p, Join):
                    continue
                for c in it.ctx.norm(p.seq):
                    if not isinstance(c, Comp):
                        raise Unsupported("structure of the client")

                    def block(c=c):
                        e = it.ctx.new_elem(c.base, "b")
                        for x in c.body(e):
                            for q in flat(it, it.m.to_s(x.v)):
                                if isinstance(q, Comp) and q.base.fn == w.types.fn:
                                    seen[0] = 1
                                    outcomes(it, lambda: element(q))
                                elif isinstance(q, Comp) and q.base.fn != w.rpcs.fn:
                                    raise Unsupported("structure of a block")
                    outcomes(it, block)
            if not seen[0]:
                raise Unsupported("no types in the client")
        attempt("Backend::generate_with_options: the comment of a type directly before its constant and its type", lambda: outcomes(it, run))
    return runner(prog, deadline, body)


def both(it, a, b):
    return z3.And(MM.bz(a), MM.bz(b))


def same_text(it, T, w, have, want, k):
    """Part by part: constant text by tokens, repeated parts by an arbitrary element."""
    a, b = flat(it, have), flat(it, want)
    i = j = 0
    while i < len(a) or j < len(b):
        x = a[i] if i < len(a) else None
        y = b[j] if j < len(b) else None
        if isinstance(x, Comp) and isinstance(y, Comp) and it.ctx._same_base(x.base, y.base):
            elem_text(it, T, x, y)
            i, j = i + 1, j + 1
            continue
        # something repeated for elements of which there are none
        if isinstance(x, Comp) and nothing(it, w, x, k):
            i += 1
            continue
        if isinstance(y, Comp) and nothing(it, w, y, k):
            j += 1
            continue
        if isinstance(x, Comp) or isinstance(y, Comp):
            raise Mismatch("the blocks differ: %r / %r" % (x, y), False)
        if x is None or y is None:
            raise Mismatch("the blocks differ: %r / %r" % (x, y))
        T.items(words(it, T, x), words(it, T, y))
        i, j = i + 1, j + 1


def flat(it, s):
    """Text without repetition (joined into one S each) and Comps, in order."""
    out = []
    for p in s.parts:
        if isinstance(p, Join):
            if p.sep != "":
                raise Unsupported("separated parts in a block")
            for q in it.ctx.norm(p.seq):
                if isinstance(q, One):
                    out += flat(it, it.m.to_s(q.v))
                else:
                    out.append(q)
        else:
            out.append(S(p))
    res = []
    for x in out:
        if isinstance(x, S) and res and isinstance(res[-1], S):
            res[-1] = S(*(res[-1].parts + x.parts))
        else:
            res.append(x)
    return [x for x in res if not (isinstance(x, S) and x.const() is not None and not x.const().strip())]


def complete(it, w, m, base):
    """Every element of the inventory makes its namespace a key of the map."""
    ns = w.ns if base.fn == w.types.fn else w.rns

    def run(p):
        e = it.ctx.new_elem(base, "q")
        xs = p.body(e)
        if not any(holds(it, eqs(it, q.v.fields["key"], ns(e.idx))) for q in xs):
            raise Mismatch("no")
    for p in m.srcs:
        if isinstance(p, Comp) and it.ctx._same_base(p.base, base):
            try:
                outcomes(it, lambda: run(p))
                return True
            except Mismatch:
                pass
    return False


def nothing(it, w, comp, k):
    full = [Base(uid, (), None) for uid, m in MM.MAPS.items() if complete(it, w, m, comp.base)] \
        if comp.base.fn in (w.types.fn, w.rpcs.fn) else []

    def run():
        e = it.ctx.new_elem(comp.base, "n")
        for b in full:
            it.ctx.fact_path(MM.present(it.m, b, w.ns(e.idx) if comp.base.fn == w.types.fn else w.rns(e.idx)))
        if comp.body(e):
            raise Mismatch("present")
    try:
        outcomes(it, run)
        return True
    except Mismatch:
        return False


def elem_text(it, T, x, y):
    def run():
        e = it.ctx.new_elem(x.base, "t")
        a, b = x.body(e), y.body(e)
        if x.rev != y.rev:
            raise Mismatch("items of a block are in another order")
        T.items(words(it, T, text_of(it, a)), words(it, T, text_of(it, b)))
    outcomes(it, run)


def text_of(it, xs):
    return S(*[it.m.to_s(q.v) for q in xs])


def words(it, T, s):
    """Tokens; a doc comment is a token of its own."""
    out = []
    for p in s.parts:
        out += [" ", p, " "] if isinstance(p, Hole) and p.fn == "docs" else [p]
    return [x for x in T.tokens(S(*out)) if x[0] != "c"]


def keys_are(it, w, m):
    """The keys of the map are exactly the namespaces of the backend with a registered type or member."""
    seen_t, seen_r = [0], [0]
    for p in m.srcs:
        if isinstance(p, One):
            raise Mismatch("a block is always emitted: %r" % (p.v.fields["key"],))
        if it.ctx._same_base(p.base, w.rpcs) or it.ctx._same_base(p.base, w.types):
            ns = w.rns if it.ctx._same_base(p.base, w.rpcs) else w.ns
            (seen_r if ns == w.rns else seen_t)[0] = 1

            def one(p=p, ns=ns):
                e = it.ctx.new_elem(p.base, "k")
                xs = p.body(e)
                for q in xs:
                    if not holds(it, both(it, eqs(it, q.v.fields["key"], ns(e.idx)), w.listed(ns(e.idx)))):
                        raise Mismatch("a block for a namespace which the backend does not list")
                if not xs and not holds(it, z3.Not(w.listed(ns(e.idx)))):
                    raise Mismatch("a namespace with content has no block")
            outcomes(it, one)
        elif p.base.fn in MM.MAPS:
            m1 = MM.MAPS[p.base.fn]
            if len(m1.srcs) != 1 or not it.ctx._same_base(m1.srcs[0].base, w.types):
                raise Unsupported("keys of the blocks")
            m1c = m1.srcs[0]

            def src():
                e = it.ctx.new_elem(w.types, "k")
                xs = m1c.body(e)
                if not xs:
                    raise Mismatch("a type is not collected")
                for q in xs:
                    if not holds(it, eqs(it, q.v.fields["key"], w.ns(e.idx))):
                        raise Mismatch("a type is collected under another namespace")
            outcomes(it, src)
            seen_t[0] = 1

            def one(p=p):
                e = it.ctx.new_elem(p.base, "k")
                xs = p.body(e)
                k = MM.key_at(p.base, e.idx)
                for q in xs:
                    if not holds(it, both(it, eqs(it, q.v.fields["key"], k), w.listed(k))):
                        raise Mismatch("a block for a namespace which the backend does not list")
                if not xs and not holds(it, z3.Not(w.listed(k))):
                    raise Mismatch("a namespace with content has no block")
            outcomes(it, one)
        else:
            raise Unsupported("keys of the blocks")
    if not seen_t[0] or not seen_r[0]:
        raise Mismatch("namespaces with %s only have no block" % ("types" if not seen_t[0] else "RPC members"))


def register_tasks():
    import derive_check as dc
    import p_derive
    w = ["register", "guard"]
    return p_derive.tasks(("struct", "tuple", "enum"), w)


def c17():
    import p_macro
    import p_rpc
    return Check("C17", [Task("views of the registry", views_task), Task("RpcMember::ns_name", p_rpc.ns_name_task),
                         Task("derive(Namespace)", p_macro.namespace_task), Task("derive(Backend)", p_macro.backend_names_task)]
                 + register_tasks(), [Battery("registry views", RB.registry_battery)], assumptions=ASSUME)


def c07():
    import p_macro
    import p_rpc
    return Check("C07", [Task("Backend::generate", generate_task), Task("RpcMember::ns_name", p_rpc.ns_name_task),
                         Task("derive(Namespace)", p_macro.namespace_task), Task("derive(Backend)", p_macro.backend_names_task)],
                 [Battery("generated clients", RB.client_battery)], assumptions=ASSUME)
