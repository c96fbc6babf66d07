"""Symbolic interpreter for the Rust subset of /repo: expressions, patterns, places, calls."""
import z3
from core import *
from rlex import Tok, lex
from rparse import N, P, parse_exprs, ParseError, block_of
from program import Module, Defn, Impl, expand_macro, cfg_ok

SPAN = Obj("span")


class Env:
    __slots__ = ("vars", "parent", "frozen")

    def __init__(self, parent=None):
        self.vars = {}
        self.parent = parent
        self.frozen = False

    def box(self, name):
        e = self
        while e is not None:
            b = e.vars.get(name)
            if b is not None:
                return b
            e = e.parent
        return None

    def bind(self, name, v):
        self.vars[name] = Box_(v)

    def freeze(self):
        """A copy whose variables keep their current values and cannot be written."""
        n = Env()
        n.frozen = True
        chain = []
        e = self
        while e is not None:
            chain.append(e)
            e = e.parent
        for e in reversed(chain):
            for k, b in e.vars.items():
                fb = FrozenBox(b.v)
                n.vars[k] = fb
        return n


class FrozenBox(Box_):
    __slots__ = ()


class FCtx:
    """Static context of the code being executed."""
    __slots__ = ("module", "self_ty", "impl", "tparams", "ret", "fn", "local")

    def __init__(self, module, self_ty=None, impl=None, tparams=None, ret=None, fn=None):
        self.module = module
        self.self_ty = self_ty
        self.impl = impl
        self.tparams = tparams or {}
        self.ret = ret
        self.fn = fn
        self.local = []      # innermost last: Modules of items declared inside function bodies

    def copy(self):
        c = FCtx(self.module, self.self_ty, self.impl, self.tparams, self.ret, self.fn)
        c.local = list(self.local)
        return c


class MapV:
    """An associative container built by insertions; see std_models."""
    __slots__ = ("kind", "srcs", "vt", "uid")

    def __init__(self, kind, srcs=(), vt=None):
        self.kind = kind
        self.srcs = list(srcs)
        self.vt = vt
        self.uid = None


def is_str(v):
    return isinstance(v, S)


def tname(t):
    return t[1] if isinstance(t, tuple) and t[0] == "adt" else None


class Interp:
    def __init__(self, prog, ctx, models=None):
        self.prog = prog
        self.ctx = ctx
        self.contracts = {}
        self.used = {}
        self.depth = 0
        self.summaries = {}
        self.in_summary = False
        self.inventory = {}
        self.trait_models = {}
        self.impl_defs = {}
        self.user_impls = []
        import std_models
        import quote_model
        self.m = std_models.Models(self)
        self.q = quote_model.Quote(self)
        self.extra_methods = []
        self.extra_ext = {}
        self.overrides = {}

    # ------------------------------------------------------------------ helpers
    def unsupported(self, msg, node=None):
        line = getattr(node, "line", None)
        raise Unsupported(msg + (" (line %s)" % line if line else ""))

    def deref(self, v):
        n = 0
        while isinstance(v, RefV):
            v = v.get()
            n += 1
            if n > 20:
                raise Unsupported("reference cycle")
        return v

    def write_box(self, b, v):
        if isinstance(b, FrozenBox):
            raise Unsupported("closure with side effects inside an unbounded iteration")
        self.ctx.write(b, v)

    def truth(self, v):
        v = self.deref(v)
        if isinstance(v, bool):
            return v
        if isinstance(v, z3.BoolRef):
            return self.ctx.branch(v)
        raise Unsupported("condition is not a bool: %r" % (v,))

    # ------------------------------------------------------------------ resolution
    def resolve(self, fc, segs, glob=False):
        segs = list(segs)
        if not glob:
            for lm in reversed(fc.local):
                if segs[0] in lm.items or any(a == segs[0] for a, _ in lm.uses):
                    return self.prog.resolve(lm, segs)
                for a, us in lm.uses:
                    if a is None:
                        pref = self.resolve_outer(fc, us)
                        if isinstance(pref, tuple) and pref[0] == "assoc":
                            continue
                        if isinstance(pref, list) and pref and pref[0].kind == "enum":
                            for v in pref[0].node.variants:
                                if v.kind == "variant" and v.name == segs[0]:
                                    return ("assoc", pref, segs)
        r = self.prog.resolve(fc.module, segs, glob=glob)
        if isinstance(r, tuple) and r[0] == "ext" and not glob:
            # glob import of an enum's variants
            for a, us in fc.module.uses:
                if a is None:
                    pref = self.prog.resolve(fc.module, us)
                    if isinstance(pref, list) and pref and pref[0].kind == "enum":
                        for v in pref[0].node.variants:
                            if v.kind == "variant" and v.name == segs[0]:
                                return ("assoc", pref, segs)
        return r

    def resolve_outer(self, fc, segs):
        return self.prog.resolve(fc.module, segs)

    # ------------------------------------------------------------------ types
    def type_val(self, node, fc):
        """AST type -> normalised type tuple."""
        k = node.kind
        if k == "thole":
            v = self.deref(node.v)
            if isinstance(v, TypeV):
                return v.t
            if isinstance(v, TokV):
                return self.type_val(P(list(v.toks)).type(), fc)
            if isinstance(v, Ident):
                r = self.resolve(fc, ["\u2039%r\u203a" % (v.s,)]) if v.text() is None else None
                d = [x for x in r if x.kind in ("struct", "enum")] if isinstance(r, list) else None
                return ("adt", d[0] if d else v, [])
            raise Unsupported("type hole %r" % (v,))
        if k == "tref":
            return ("ref", self.type_val(node.el, fc))
        if k == "ttuple":
            return ("tuple", self.types_of(node.elems, fc))
        if k == "tarray":
            n = node.n
            if n.kind == "lit":
                ln = n.v
            elif n.kind == "pathe" and n.path.segs[-1][0] in fc.tparams:
                ln = fc.tparams[n.path.segs[-1][0]]
            elif n.kind == "pathe":
                ln = ("cparam", n.path.segs[-1][0])
            else:
                ln = ("n", repr(n))
            return ("array", self.type_val(node.el, fc), ln)
        if k == "tslice":
            return ("slice", self.type_val(node.el, fc))
        if k in ("timpl", "tdyn"):
            return (k, [b for b in node.bounds])
        if k == "tinfer":
            return ("infer",)
        if k == "tnever":
            return ("never",)
        if k == "tptr":
            return ("ptr", self.type_val(node.el, fc))
        if k == "tfn":
            return ("fn",)
        if k == "path":
            if node.qself is not None:
                q = self.type_val(node.qself, fc)
                tr = node.qtrait.segs[-1][0] if node.qtrait is not None else None
                r = self.assoc_type(q, tr, node.segs[-1][0], fc)
                if r is not None:
                    return r
                return ("proj", q, tr, node.segs[-1][0])
            name, args = node.segs[-1]
            if len(node.segs) == 1 and not node.glob:
                if name == "Self" and fc.self_ty is not None:
                    return fc.self_ty
                if name in fc.tparams:
                    v = fc.tparams[name]
                    return v
            if len(node.segs) == 2 and not node.glob and \
                    (node.segs[0][0] in fc.tparams or node.segs[0][0] == "Self"):
                q = fc.tparams.get(node.segs[0][0], fc.self_ty)
                r = self.assoc_type(q, None, name, fc)
                if r is not None:
                    return r
                return ("proj", q, None, name)
            targs = self.types_of(args or [], fc)
            r = self.resolve(fc, [s[0] for s in node.segs], glob=node.glob)
            if isinstance(r, list) and r:
                d = [x for x in r if x.kind in ("struct", "enum", "type", "trait")]
                if d:
                    d = d[0]
                    if d.kind == "type" and d.node.ty is not None:
                        nf = FCtx(d.module)
                        for g, a in zip([g for g in d.node.generics if g.kind == "tparam"], targs):
                            nf.tparams[g.name] = a
                        return self.type_val(d.node.ty, nf)
                    return ("adt", d, targs)
            if isinstance(r, tuple) and r[0] == "ext":
                full = r[1]
            else:
                full = "::".join(str(s[0]) for s in node.segs)
            if isinstance(name, Ident):
                return ("adt", name, targs)
            return ("adt", full, targs)
        raise Unsupported("type %s" % k)

    def types_of(self, nodes, fc):
        out = []
        for a in nodes:
            if a.kind in ("life",):
                continue
            if a.kind == "assoc":
                continue
            if a.kind == "cexpr":
                out.append(("n", a.e.v if a.e.kind == "lit" else repr(a.e)))
                continue
            if a.kind == "splice":
                out.append(("splice", a.seq, getattr(a, "sep", None), getattr(a, "trail", None)))
                continue
            if a.kind == "fnsig":
                out.append(("fnsig",))
                continue
            out.append(self.type_val(a, fc))
        return out

    def assoc_type(self, q, trait, name, fc):
        if isinstance(q, tuple) and q[0] == "adt":
            for im in self.all_impls():
                if name in im.types and (trait is None or im.trait_name == trait):
                    b = self.unify_impl(im, q)
                    if b is not None:
                        nf = FCtx(im.module, q, im, b)
                        return self.type_val(im.types[name].ty, nf)
        return None

    def all_impls(self):
        return self.user_impls + self.prog.impls

    def impl_type_pattern(self, im):
        key = id(im)
        p = self.impl_defs.get(key)
        if p is None:
            fc = FCtx(im.module)
            for g in im.generics:
                if g.kind == "tparam":
                    fc.tparams[g.name] = ("var", g.name)
                elif g.kind == "cparam":
                    fc.tparams[g.name] = ("var", g.name)
            fc.local = list(getattr(im, "local", []))
            p = self.type_val(im.ty, fc)
            self.impl_defs[key] = p
        return p

    def unify_impl(self, im, t):
        b = {}
        if self.unify(self.impl_type_pattern(im), t, b):
            return b
        return None

    def unify(self, pat, t, b):
        if pat[0] == "var":
            if t[0] == "ref" and False:
                return False
            if pat[1] in b:
                return self.same_type(b[pat[1]], t)
            b[pat[1]] = t
            return True
        if pat[0] == "adt":
            if t[0] != "adt":
                return False
            if not self.same_adt(pat[1], t[1]):
                return False
            pa, ta = pat[2], t[2]
            if len(pa) > len(ta):
                # defaulted parameters (HashMap's hasher) may be omitted
                pa = [x for x in pa]
                for extra in pa[len(ta):]:
                    if extra[0] != "var":
                        return False
                pa = pa[:len(ta)]
            if len(pa) != len(ta):
                return False
            return all(self.unify(x, y, b) for x, y in zip(pa, ta))
        if pat[0] != t[0]:
            return False
        if pat[0] in ("ref", "slice"):
            return self.unify(pat[1], t[1], b)
        if pat[0] == "array":
            if not self.unify(pat[1], t[1], b):
                return False
            n = pat[2]
            if isinstance(n, tuple) and n[0] == "var":
                b[n[1]] = t[2]
                return True
            return n == t[2]
        if pat[0] == "tuple":
            return len(pat[1]) == len(t[1]) and all(self.unify(x, y, b) for x, y in zip(pat[1], t[1]))
        if pat[0] == "obj":
            return self.same_type(pat, t)
        return pat == t

    def same_adt(self, a, b):
        if isinstance(a, Defn) or isinstance(b, Defn):
            return a is b
        if isinstance(a, Ident) or isinstance(b, Ident):
            return a == b
        A = norm_path(a)
        B = norm_path(b)
        n = min(len(A), len(B))
        return A[-n:] == B[-n:]

    def same_type(self, a, b):
        if a[0] != b[0]:
            return False
        if a[0] == "obj":
            return a[1].kind == b[1].kind and len(a[1].args) == len(b[1].args) and \
                all(x is y or self.ctx.must(x == y) for x, y in zip(a[1].args, b[1].args))
        if a[0] == "adt":
            return self.same_adt(a[1], b[1]) and len(a[2]) == len(b[2]) and \
                all(self.same_type(x, y) for x, y in zip(a[2], b[2]))
        if a[0] in ("ref", "slice", "ptr"):
            return self.same_type(a[1], b[1])
        if a[0] == "tuple":
            return len(a[1]) == len(b[1]) and all(self.same_type(x, y) for x, y in zip(a[1], b[1]))
        if a[0] == "array":
            return self.same_type(a[1], b[1]) and a[2] == b[2]
        return a == b

    # ------------------------------------------------------------------ trait dispatch
    def find_trait_item(self, t, trait, name, what="fns"):
        """Find (impl, bindings, defn) for `<t as trait>::name`."""
        hits = []
        for im in self.all_impls():
            if trait is not None and im.trait_name != trait:
                continue
            if name not in getattr(im, what) and not self.trait_default(im, name, what):
                continue
            pat = self.impl_type_pattern(im)
            if pat[0] == "var" and t[0] == "obj":
                continue
            b = self.unify_impl(im, t)
            if b is not None:
                hits.append((im, b))
        if not hits:
            return None
        # prefer inherent impls, then concrete ones
        hits.sort(key=lambda h: (h[0].trait is not None, self.impl_type_pattern(h[0])[0] == "var"))
        im, b = hits[0]
        d = getattr(im, what).get(name)
        if d is None:
            d = self.trait_default(im, name, what)
        return im, b, d

    def trait_defn(self, im):
        tr = im.trait
        if tr is None or tr.kind != "path":
            return None
        key = ("trait", id(im))
        if key not in self.impl_defs:
            fc = FCtx(im.module)
            fc.local = list(getattr(im, "local", []))
            r = self.resolve(fc, [s[0] for s in tr.segs], glob=tr.glob)
            d = None
            if isinstance(r, list):
                ds = [x for x in r if x.kind == "trait"]
                d = ds[0] if ds else None
            self.impl_defs[key] = d
        return self.impl_defs[key]

    def trait_default(self, im, name, what):
        d = self.trait_defn(im)
        if d is None or what == "types":
            return None
        x = getattr(d, what).get(name)
        if x is not None and what == "fns" and x.node.body is None:
            return None
        return x

    def call_trait(self, t, trait, name, args, node=None, tyargs=None):
        """<t as trait>::name(args)"""
        if trait in self.overrides:
            return self.overrides[trait](t, name, args)
        if t[0] == "ref":
            h = self.find_trait_item(t, trait, name)
            if h is None:
                h0 = self.find_trait_item(t[1], trait, name)
                if h0 is not None or t[1][0] == "obj":
                    return self.call_trait(t[1], trait, name, args, node, tyargs)
        h = self.find_trait_item(t, trait, name) if t[0] != "obj" else None
        if h is not None:
            im, b, d = h
            return self.call_defn(d, args, self_ty=t, impl=im, tparams=dict(b), tyargs=tyargs)
        m = self.trait_models.get(trait)
        if m is not None:
            return m(t, name, args, tyargs) if trait == "Backend" else m(t, name, args)
        raise Unsupported("no impl of %s for %r (%s)" % (trait, t, name))

    def trait_const(self, t, trait, name):
        if trait in self.overrides:
            return self.overrides[trait](t, name, None)
        h = self.find_trait_item(t, trait, name, "consts") if t[0] != "obj" else None
        if h is not None and h[2].node.e is not None:
            im, b, d = h
            fc = FCtx(d.module, t, im, dict(b))
            fc.local = list(getattr(im, "local", []))
            return self.eval(d.node.e, Env(), fc)
        m = self.trait_models.get(trait)
        if m is not None:
            return m(t, name, None)
        raise Unsupported("no const %s::%s for %r" % (trait, name, t))

    # ------------------------------------------------------------------ calls
    def call_defn(self, d, args, self_ty=None, impl=None, tparams=None, tyargs=None):
        qual = d.qual()
        c = self.contracts.get(qual)
        if c is not None:
            r = c(self, d, args, self_ty, tyargs)
            if r is not NotImplemented:
                return r
        self.used[qual] = self.used.get(qual, 0) + 1
        node = d.node
        if node.body is None:
            raise Unsupported("call of %s which has no body" % qual)
        self.depth += 1
        if self.depth > 120:
            raise Panic("unbounded recursion in %s" % qual)
        try:
            fc = FCtx(d.module, self_ty, impl or d.impl, dict(tparams or {}), None, d)
            fc.local = list(getattr(d, "local", []) or getattr(fc.impl, "local", []) or [])
            gens = [g for g in node.generics if g.kind == "tparam"]
            for g, a in zip(gens, tyargs or []):
                fc.tparams[g.name] = a
            for g in gens[len(tyargs or []):]:
                fc.tparams.setdefault(g.name, ("infer",))
            for g in gens[len(tyargs or []):]:
                r = self.returned_by(g.name, node.params, args)
                if r is not None:
                    fc.tparams[g.name] = r
            if node.ret is not None:
                fc.ret = node.ret
            env = Env()
            args = list(args)
            if node.self_param is not None:
                env.bind("self", args.pop(0))
            params = node.params
            if len(params) != len(args):
                raise Unsupported("arity mismatch calling %s" % qual)
            for p, a in zip(params, args):
                a = self.into_option(p.ty, a)
                if not self.match(p.pat, a, env, fc, irrefutable=True):
                    raise Unsupported("refutable parameter")
            if "async" in node.quals:
                return self.make_future(node, env, fc)
            r = self.summarised(d, node, args, fc)
            if r is not None:
                return r
            try:
                return self.eval(node.body, env, fc, want=node.ret)
            except Return as r:
                return r.v
        finally:
            self.depth -= 1

    def summarised(self, d, node, args, fc):
        """The result of a function of strings by its paths over arbitrary strings, equal results taken together;
        None where that is no simplification."""
        if node.self_param is not None or not args or self.in_summary:
            return None
        for p in node.params:
            t = p.ty if p.kind == "param" else None
            if t is not None and t.kind == "tref" and not t.mut:
                t = t.el
            if t is None or t.kind != "path" or t.segs[-1][0] not in ("str", "String"):
                return None
        import std_models
        vals = [self.deref(a) for a in args]
        if not all(isinstance(v, S) for v in vals) or not any(v.const() is None for v in vals):
            return None
        key = d.qual()
        if key not in self.summaries:
            self.summaries[key] = None
            self.summaries[key] = self.summary(d, node, len(vals), fc)
        sm = self.summaries[key]
        if sm is None:
            return None
        terms = [std_models.s_term(v) for v in vals]
        if any(t is None for t in terms):
            return None
        for v, t in zip(vals, terms):
            if v.const() is None and v.parts[0].fn in std_models.NONEMPTY_HOLES:
                self.ctx.fact_path(t != std_models.const_str_term(""))
        holes, groups = sm
        sub = [(std_models.hole_term(h), t) for h, t in zip(holes, terms)]

        def inst(v):
            if not isinstance(v, S):
                return v
            return S(*[vals[holes.index(q)] if q in holes else q for q in v.parts])
        for cond, v in groups[:-1]:
            if self.ctx.branch(z3.substitute(cond, *sub)):
                return inst(v)
        return inst(groups[-1][1])

    def summary(self, d, node, n, fc):
        import std_models
        holes = [Hole("arg %d of %s" % (i, d.qual())) for i in range(n)]

        def run():
            mark, t0 = len(self.ctx.undo), len(self.ctx.trace)
            r = inner()
            if len(self.ctx.trace) != t0 or any(b.stamp <= born for b, _ in self.ctx.undo[mark:]):
                raise Unsupported("effects")
            return r

        def inner():
            env = Env()
            for p, h in zip(node.params, holes):
                if not self.match(p.pat, S(h), env, fc, irrefutable=True):
                    raise Unsupported("refutable parameter")
            try:
                return self.deref(self.eval(node.body, env, fc, want=node.ret))
            except Return as r:
                return self.deref(r.v)
        import core
        born = core._stamp[0]
        self.in_summary = True
        used = dict(self.used)
        try:
            res = self.ctx.explore(run, limit=400)
        except Unsupported:
            return None
        finally:
            self.in_summary = False
        if len(res) < 5:
            self.used = used
            return None
        own = {str(std_models.hole_term(h)) for h in holes}
        groups = {}
        for conds, kind, v in res:
            if kind != "ok" or not isinstance(v, (bool, S)):
                return None
            if isinstance(v, S) and not all(isinstance(q, str) or any(q is h for h in holes) for q in v.parts):
                return None
            todo = list(conds)
            while todo:
                c = todo.pop()
                if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED and str(c) not in own:
                    return None
                todo += c.children()
            groups.setdefault(repr(v), [[], v])[0].append(z3.And(*conds) if conds else z3.BoolVal(True))
        out = sorted(groups.values(), key=lambda g: len(g[0]))
        return holes, [(z3.Or(*g[0]), g[1]) for g in out]

    def returned_by(self, g, params, args):
        """The type G of an argument `impl Fn(..) -> G` which is a path to a function of unknown signature."""
        for p, a in zip(params, args[len(args) - len(params):]):
            if p.kind != "param" or p.ty is None or p.ty.kind != "timpl":
                continue
            for b in p.ty.bounds:
                if b.kind != "path" or not b.segs[-1][1] or b.segs[-1][1][0].kind != "fnsig":
                    continue
                ret = b.segs[-1][1][0].ret
                if ret is not None and ret.kind == "path" and [s[0] for s in ret.segs] == [g]:
                    v = self.deref(a)
                    if isinstance(v, Obj) and v.kind == "fnpath":
                        return ("obj", Obj("ret", v.args))
        return None

    def into_option(self, ty, a):
        """An argument of type `impl Into<Option<T>>`, which the callee can only convert: converted right away."""
        if ty is not None and ty.kind == "timpl" and len(ty.bounds) == 1 and ty.bounds[0].kind == "path":
            seg = ty.bounds[0].segs[-1]
            if seg[0] == "Into" and seg[1] and seg[1][0].kind == "path" and seg[1][0].segs[-1][0] == "Option":
                v = self.deref(a)
                if not (isinstance(v, (EnumV, SymEnum)) and v.enum == "Option"):
                    return some(a)
        return a

    def make_future(self, node, env, fc):
        def run():
            try:
                return self.eval(node.body, env, fc, want=node.ret)
            except Return as r:
                return r.v
        return StructV("$future", {"run": PyFn(lambda: run())})

    def await_(self, v, node=None):
        v = self.deref(v)
        if isinstance(v, StructV) and v.name == "$future":
            return v.fields["run"].f()
        if isinstance(v, ClosureV) and v.node.kind == "asyncblock":
            return self.run_async(v)
        for h in self.extra_methods:
            r = h(self, v, "$await", [], node, None)
            if r is not NotImplemented:
                return r
        raise Unsupported("await on %r" % (v,))

    def run_async(self, v):
        env, fc = v.env
        try:
            return self.eval(v.node.body, Env(env), fc)
        except Return as r:
            return r.v

    def call(self, f, args, node=None):
        f = self.deref(f)
        if isinstance(f, PyFn):
            return f.f(*args)
        if isinstance(f, ClosureV):
            env, fc = f.env
            e = Env(env)
            ps = f.node.params
            if len(ps) != len(args):
                raise Unsupported("closure arity")
            for (pat, ty), a in zip(ps, args):
                if not self.match(pat, a, e, fc, irrefutable=True):
                    raise Unsupported("refutable closure parameter")
            if f.node.is_async:
                return ClosureV(N("asyncblock", body=f.node.body, move=True, line=f.node.line), (e, fc), self)
            try:
                return self.eval(f.node.body, e, fc)
            except Return as r:
                return r.v
        if isinstance(f, FnV):
            return self.call_defn(f.defn, args)
        if isinstance(f, Obj) and f.meta.get("call"):
            return f.meta["call"](*args)
        raise Unsupported("call of %r" % (f,))

    def freeze_fn(self, f):
        """Function value to be applied later, at arbitrary elements."""
        f = self.deref(f)
        if isinstance(f, ClosureV):
            env, fc = f.env
            return ClosureV(f.node, (env.freeze(), fc), self)
        return f

    # ------------------------------------------------------------------ expressions
    def eval(self, n, env, fc, want=None):
        m = getattr(self, "e_" + n.kind, None)
        if m is None:
            self.unsupported("expression %s" % n.kind, n)
        return m(n, env, fc, want)

    def e_lit(self, n, env, fc, want):
        if n.lk == "str":
            return n.v if isinstance(n.v, S) else S(n.v)
        if n.lk == "char":
            return Ch(n.v)
        if n.lk == "bool":
            return n.v
        if n.lk == "int":
            return n.v
        if n.lk == "float":
            return n.v
        self.unsupported("literal %s" % n.lk, n)

    def e_hole(self, n, env, fc, want):
        v = self.deref(n.v)
        if isinstance(v, TokV):
            toks = list(v.toks)
            return self.eval_tokens(toks, env, fc)
        if isinstance(v, (S, bool, int)):
            return v
        if isinstance(v, Meaning):
            return v.run()
        raise Unsupported("expression hole %r" % (v,))

    def eval_tokens(self, toks, env, fc):
        p = P(toks)
        e = p.expr()
        if not p.eof():
            raise Unsupported("unexpected tokens after expression")
        return self.eval(e, env, fc)

    def e_paren(self, n, env, fc, want):
        return self.eval(n.e, env, fc, want)

    def e_tuple(self, n, env, fc, want):
        if not n.elems:
            return UNIT
        out = []
        for e in n.elems:
            if e.kind == "splice":
                s = self.splice_values(e.seq, env, fc)
                vals = self.concrete(s)
                out.extend(vals)
            else:
                out.append(self.eval(e, env, fc))
        return TupleV(out)

    def e_array(self, n, env, fc, want):
        return self.seq_literal(n.elems, env, fc)

    def seq_literal(self, elems, env, fc):
        parts = []
        for e in elems:
            if e.kind == "splice":
                parts.extend(self.splice_values(e.seq, env, fc).parts)
            else:
                parts.append(One(self.eval(e, env, fc)))
        return SeqV(parts)

    def splice_values(self, seq, env, fc):
        """Values of a spliced repetition of expressions."""
        fenv = [None]

        def f(tv):
            tv = self.deref(tv)
            if fenv[0] is None:
                fenv[0] = env.freeze()
            es = parse_exprs(list(tv.toks))
            out = []
            for e in es:
                if e.kind == "splice":
                    out.extend(self.splice_values(e.seq, fenv[0], fc).parts)
                else:
                    out.append(One(self.eval(e, fenv[0], fc)))
            return out
        return self.m.flat_map_parts(seq, f, single=True)

    def concrete(self, seq):
        parts = self.ctx.norm(seq)
        out = []
        for p in parts:
            if not isinstance(p, One):
                raise Unsupported("sequence of unknown length where a fixed one is needed")
            out.append(p.v)
        return out

    def e_repeat(self, n, env, fc, want):
        v = self.eval(n.e, env, fc)
        c = self.eval(n.n, env, fc)
        if isinstance(c, int):
            return seq_of([v] * c)
        self.unsupported("array repeat", n)

    def e_block(self, n, env, fc, want):
        e = Env(env)
        return self.block_in(n, e, fc, want)

    def block_in(self, n, e, fc, want=None):
        items = [s for s in n.stmts if s.kind == "itemstmt"]
        if items or any(s.kind == "splicestmts" for s in n.stmts):
            fc = fc.copy()
            lm = Module(self.prog, fc.module.crate, fc.module.path + ["$local"], fc.module)
            its = [s.item for s in items]
            self.prog_add_local(lm, its, fc)
            fc.local.append(lm)
            for im in lm.impl_list:
                im.local = list(fc.local)
            for ds in lm.items.values():
                for d in ds:
                    d.local = list(fc.local)
        for s in n.stmts:
            self.stmt(s, e, fc)
        if n.tail is not None:
            return self.eval(n.tail, e, fc, want)
        return UNIT

    def prog_add_local(self, lm, items, fc):
        save = self.prog.impls
        self.prog.impls = []
        try:
            self.prog.add_items(lm, items, "<local>")
            lm.impl_list = self.prog.impls
        finally:
            self.prog.impls = save
        self.user_impls = self.user_impls + lm.impl_list

    def stmt(self, s, env, fc):
        k = s.kind
        if k == "let":
            ty = s.ty
            if ty is None and s.pat.kind == "pstruct" and s.els is None:
                ty = s.pat.path          # a pattern which always matches tells the type
            v = self.eval(s.e, env, fc, ty) if s.e is not None else None
            if s.e is None:
                if s.pat.kind in ("pname", "pident"):
                    env.bind(s.pat.name, None)
                    return
                self.unsupported("let without value", s)
            if s.els is not None:
                e2 = Env()
                if self.match(s.pat, v, e2, fc):
                    env.vars.update(e2.vars)
                else:
                    self.eval(s.els, env, fc)
                    raise Infeasible()
                return
            e2 = Env()
            if not self.match(s.pat, v, e2, fc, irrefutable=True):
                self.unsupported("refutable let", s)
            env.vars.update(e2.vars)
        elif k == "itemstmt":
            pass
        elif k == "semi":
            self.eval(s.e, env, fc)
        elif k == "splicestmts":
            self.unsupported("spliced statements", s)
        else:
            self.unsupported("statement %s" % k, s)

    # -- paths
    def e_pathe(self, n, env, fc, want):
        p = n.path
        if p.qself is None and len(p.segs) == 1 and not p.glob:
            name = p.segs[0][0]
            b = env.box(name)
            if b is not None:
                if b.v is None:
                    self.unsupported("use of uninitialised %s" % name, n)
                return b.v
            if name in fc.tparams and isinstance(fc.tparams[name], (int, z3.ExprRef)):
                return fc.tparams[name]
        return self.path_value(p, fc, n)

    def path_value(self, p, fc, n=None):
        r = self.path_target(p, fc)
        k = r[0]
        if k == "fn":
            d, self_ty, im, tp, tyargs = r[1:]
            return PyFn(lambda *a: self.call_defn(d, list(a), self_ty, im, tp, tyargs), d.name)
        if k == "const":
            d, self_ty, im, tp = r[1:]
            cc = self.contracts.get("const " + d.qual())
            if cc is not None:
                return cc(self)
            nf = FCtx(d.module, self_ty, im, tp)
            nf.local = list(getattr(d, "local", []))
            return self.eval(d.node.e, Env(), nf, d.node.ty)
        if k == "value":
            return r[1]
        if k == "variant":
            d, v = r[1], r[2]
            if v.style == "unit":
                return EnumV(d.name, v.name, (), d)
            if v.style == "tuple":
                return PyFn(lambda *a: EnumV(d.name, v.name, tuple(a), d), v.name)
            self.unsupported("struct variant as value", n)
        if k == "struct":
            d = r[1]
            if d.node.style == "unit":
                return StructV(d.name, {}, d)
            if d.node.style == "tuple":
                return PyFn(lambda *a: StructV(d.name, {str(i): x for i, x in enumerate(a)}, d), d.name)
            self.unsupported("struct as value", n)
        if k == "traitfn":
            t, trait, name, tyargs = r[1:]
            return PyFn(lambda *a: self.call_trait(t, trait, name, list(a), n, tyargs), name)
        if k == "traitconst":
            return self.trait_const(r[1], r[2], r[3])
        if k == "ext":
            return self.m.ext_value(r[1], r[2], fc, n)
        if k == "extassoc":
            return self.m.ext_assoc(r[1], r[2], r[3], fc, n)
        self.unsupported("path value %r" % (k,), n)

    def path_target(self, p, fc):
        """What a path denotes in expression position."""
        segs = [s[0] for s in p.segs]
        last_args = self.types_of(p.segs[-1][1] or [], fc)
        if p.qself is not None:
            t = self.type_val(p.qself, fc)
            trait = p.qtrait.segs[-1][0] if p.qtrait is not None else None
            return self.assoc_target(t, trait, segs[-1], last_args, fc)
        if len(segs) >= 2 and not p.glob and (segs[0] == "Self" or segs[0] in fc.tparams):
            t = fc.self_ty if segs[0] == "Self" else fc.tparams[segs[0]]
            if segs[0] == "Self" and t is None and fc.fn is not None and getattr(fc.fn, "trait", None) is not None:
                raise Unsupported("Self in trait without self type")
            for s in segs[1:-1]:
                r = self.assoc_type(t, None, s, fc)
                if r is None:
                    r = ("proj", t, None, s)
                t = r
            tr = None
            return self.assoc_target(t, tr, segs[-1], last_args, fc)
        if segs == ["Self"]:
            t = fc.self_ty
            if t[0] == "adt" and isinstance(t[1], Defn):
                return ("struct", t[1])
        r = self.resolve(fc, segs, glob=p.glob)
        if isinstance(r, list):
            for d in r:
                if d.kind == "fn":
                    return ("fn", d, None, None, {}, last_args)
                if d.kind == "const":
                    return ("const", d, None, None, {})
            for d in r:
                if d.kind == "struct":
                    return ("struct", d)
                if d.kind == "trait":
                    return ("trait", d)
            raise Unsupported("path %s" % "::".join(map(str, segs)))
        if isinstance(r, tuple) and r[0] == "assoc":
            ds, rest = r[1], r[2]
            for d in ds:
                if d.kind == "enum":
                    for v in self.variants_of(d):
                        if v.name == rest[0] and len(rest) == 1:
                            return ("variant", d, v)
            for d in ds:
                if d.kind in ("struct", "enum", "type"):
                    pi = len(p.segs) - len(rest) - 1
                    targs = self.types_of((p.segs[pi][1] or []) if pi >= 0 else [], fc)
                    if d.kind == "type" and d.node.ty is not None:
                        t = self.type_val(d.node.ty, FCtx(d.module))
                    else:
                        t = ("adt", d, targs)
                    return self.assoc_target(t, None, rest[-1], last_args, fc)
                if d.kind == "trait":
                    return ("traitm", d, rest[-1], last_args)
            raise Unsupported("path %s" % "::".join(map(str, segs)))
        if isinstance(r, tuple) and r[0] == "ext":
            targs = self.types_of(p.segs[-2][1] or [], fc) if len(p.segs) >= 2 else []
            return ("ext", r[1], (targs, last_args))
        raise Unsupported("path %s" % "::".join(map(str, segs)))

    def variants_of(self, d):
        out = []
        for v in d.node.variants:
            if v.kind == "splice":
                raise Unsupported("enum with spliced variants")
            out.append(v)
        return out

    def assoc_target(self, t, trait, name, last_args, fc):
        if t[0] == "adt" and isinstance(t[1], Defn) and t[1].kind == "enum" and trait is None:
            for v in t[1].node.variants:
                if v.kind == "variant" and v.name == name:
                    return ("variant", t[1], v)
        for tn in self.overrides:
            if trait in (None, tn) and self.overrides[tn](t, name, "?"):
                return ("traitconst" if name.isupper() else "traitfn", t, tn, name) + (() if name.isupper() else (last_args,))
        h = self.find_trait_item(t, trait, name) if t[0] != "obj" else None
        if h is not None:
            im, b, d = h
            return ("fn", d, t, im, dict(b), last_args)
        h = self.find_trait_item(t, trait, name, "consts") if t[0] != "obj" else None
        if h is not None:
            im, b, d = h
            if d.node.e is not None:
                return ("const", d, t, im, dict(b))
        if t[0] == "ref" and self.find_trait_item(t[1], trait, name) is not None:
            return self.assoc_target(t[1], trait, name, last_args, fc)
        # a trait fn of an opaque type
        cand = trait
        if cand is None:
            for tn, mod in self.trait_models.items():
                if mod(t, name, "?"):
                    cand = tn
                    break
        if cand is not None and cand in self.trait_models:
            if name.isupper():
                return ("traitconst", t, cand, name)
            return ("traitfn", t, cand, name, last_args)
        if t[0] == "adt" and not isinstance(t[1], (Defn, Ident)):
            return ("ext", t[1] + "::" + name, (t[2], last_args))
        if t[0] == "adt" and trait is not None:
            return ("extassoc", t, trait, name)
        return ("extassoc", t, trait, name)

    # -- operators
    def e_bin(self, n, env, fc, want):
        op = n.op
        if op == "&&":
            if n.l.kind == "letcond" or self.has_let(n.l) or self.has_let(n.r):
                if not self.cond(n.l, env, fc):
                    return False
                return self.cond(n.r, env, fc)
            if not self.truth(self.eval(n.l, env, fc)):
                return False
            return self.eval(n.r, env, fc)
        if op == "||":
            if self.truth(self.eval(n.l, env, fc)):
                return True
            return self.eval(n.r, env, fc)
        l = self.deref(self.eval(n.l, env, fc))
        r = self.deref(self.eval(n.r, env, fc))
        return self.m.binop(op, l, r, n)

    def has_let(self, n):
        if n.kind == "letcond":
            return True
        if n.kind == "bin" and n.op == "&&":
            return self.has_let(n.l) or self.has_let(n.r)
        return False

    def cond(self, n, env, fc):
        """Evaluate a condition; `let` bindings go to env."""
        if n.kind == "paren":
            return self.cond(n.e, env, fc)
        if n.kind == "letcond":
            v = self.eval(n.e, env, fc)
            return self.match(n.pat, v, env, fc)
        if n.kind == "bin" and n.op == "&&" and self.has_let(n):
            return self.cond(n.l, env, fc) and self.cond(n.r, env, fc)
        return self.truth(self.eval(n, env, fc))

    def e_letcond(self, n, env, fc, want):
        return self.cond(n, env, fc)

    def e_not(self, n, env, fc, want):
        v = self.deref(self.eval(n.e, env, fc))
        if isinstance(v, bool):
            return not v
        if isinstance(v, z3.BoolRef):
            return z3.Not(v)
        self.unsupported("not", n)

    def e_neg(self, n, env, fc, want):
        v = self.deref(self.eval(n.e, env, fc))
        return -v

    def e_ref(self, n, env, fc, want):
        if n.mut:
            return self.place(n.e, env, fc)
        w = want.el if want is not None and want.kind == "tref" else None
        return self.eval(n.e, env, fc, w)

    def e_deref(self, n, env, fc, want):
        v = self.eval(n.e, env, fc)
        if isinstance(v, RefV):
            return v.get()
        return self.m.deref_value(v)

    def e_cast(self, n, env, fc, want):
        v = self.deref(self.eval(n.e, env, fc))
        ty = n.ty.segs[-1][0] if n.ty.kind == "path" else None
        if isinstance(v, Ch):
            v = v.code()
            if not isinstance(v, int):
                if ty in ("u32", "i32"):
                    return v
                if ty in ("u8", "u16"):
                    return v % (256 if ty == "u8" else 65536)
        if isinstance(v, bool) or not isinstance(v, (int, z3.ArithRef)):
            self.unsupported("cast", n)
        bits = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}.get(ty)
        if bits is None:
            self.unsupported("cast to %s" % ty, n)
        if isinstance(v, int):
            v %= 1 << bits
            return v - (1 << bits) if ty[0] == "i" and v >> (bits - 1) else v
        if ty in ("usize", "u64", "u128", "i128"):
            return v        # symbolic integers are lengths, indices and ids: 0 .. 2^64 - 1
        self.unsupported("a cast of a symbolic integer to %s" % ty, n)

    def e_range(self, n, env, fc, want):
        lo = self.eval(n.lo, env, fc) if n.lo is not None else None
        hi = self.eval(n.hi, env, fc) if n.hi is not None else None
        return StructV("$range", {"lo": lo, "hi": hi, "incl": n.incl})

    def e_assign(self, n, env, fc, want):
        if n.l.kind == "pathe" and len(n.l.path.segs) == 1 and n.l.path.segs[0][0] == "_":
            self.eval(n.r, env, fc)
            return UNIT
        v = self.eval(n.r, env, fc)
        p = self.place(n.l, env, fc)
        p.set(v)
        return UNIT

    def e_assignop(self, n, env, fc, want):
        r = self.deref(self.eval(n.r, env, fc))
        p = self.place(n.l, env, fc)
        while isinstance(p.get(), RefV):
            p = p.get()
        l = p.get()
        p.set(self.m.binop(n.op, l, r, n))
        return UNIT

    # -- places
    def place(self, n, env, fc):
        k = n.kind
        if k == "paren":
            return self.place(n.e, env, fc)
        if k == "pathe" and n.path.qself is None and len(n.path.segs) == 1:
            name = n.path.segs[0][0]
            b = env.box(name)
            if b is not None:
                if isinstance(b.v, RefV):
                    return b.v if not getattr(self, "_raw", False) else RefV(lambda: b.v, lambda v: self.write_box(b, v))
                return RefV(lambda: b.v, lambda v: self.write_box(b, v))
        if k == "field":
            base = self.place(n.e, env, fc)
            return self.field_place(base, n.name)
        if k == "fieldhole":
            base = self.place(n.e, env, fc)
            return self.field_place(base, self.field_hole_name(n.v), n)
        if k == "deref":
            p = self.place(n.e, env, fc)
            v = p.get()
            if isinstance(v, RefV):
                return v
            return p
        if k == "ref":
            return self.place(n.e, env, fc)
        if k == "index":
            base = self.place(n.e, env, fc)
            i = self.eval(n.i, env, fc)

            def get():
                return self.m.index(self.deref(base.get()), i, n)
            return RefV(get, lambda v: self.unsupported("assignment to an index", n))
        # temporary
        v = self.eval(n, env, fc)
        if isinstance(v, RefV):
            return v
        b = Box_(v)
        return RefV(lambda: b.v, lambda x: self.write_box(b, x))

    def field_place(self, base, name, n=None):
        def get():
            return self.m.field(self.deref_get(base), name, n)

        def set_(v):
            p = base
            while isinstance(p.get(), RefV):
                p = p.get()
            o = p.get()
            if isinstance(o, StructV):
                f = dict(o.fields)
                f[name] = v
                p.set(StructV(o.name, f, o.defn))
            elif isinstance(o, TupleV):
                e = list(o.elems)
                e[int(name)] = v
                p.set(TupleV(e))
            else:
                self.m.set_field(o, name, v)
        r = RefV(get, set_)
        cur = get()
        if isinstance(cur, RefV):
            return cur
        return r

    def deref_get(self, place):
        return self.deref(place)

    def field_hole_name(self, v):
        v = self.deref(v)
        if isinstance(v, int):
            return str(v)
        if isinstance(v, Ident):
            return v.text() or v
        if isinstance(v, StructV) and v.name == "$index":
            return v.fields["i"]
        return v

    def e_field(self, n, env, fc, want):
        v = self.eval(n.e, env, fc)
        name = n.name
        return self.m.field(self.deref(v), name, n)

    def e_fieldhole(self, n, env, fc, want):
        v = self.eval(n.e, env, fc)
        return self.m.field(self.deref(v), self.field_hole_name(n.v), n)

    def e_index(self, n, env, fc, want):
        v = self.deref(self.eval(n.e, env, fc))
        i = self.deref(self.eval(n.i, env, fc))
        return self.m.index(v, i, n)

    # -- control
    def e_if(self, n, env, fc, want):
        e = Env(env)
        if self.cond(n.c, e, fc):
            return self.eval(n.th, e, fc, want)
        if n.el is not None:
            return self.eval(n.el, env, fc, want)
        return UNIT

    def e_match(self, n, env, fc, want):
        v = self.decoded(self.eval(n.e, env, fc), lambda: self.read_type(n.arms, want, env, fc))
        for arm in n.arms:
            if arm.kind == "splicearms":
                r = self.m.splice_arms(self, arm, v, env, fc)
                if r is not NotImplemented:
                    return r
                continue
            e = Env(env)
            if not self.match(arm.pat, v, e, fc):
                continue
            if arm.guard is not None and not self.cond(arm.guard, e, fc):
                continue
            return self.eval(arm.e, e, fc, want)
        raise Unsupported("match without a matching arm (line %s)" % n.line)

    def decoded(self, v, ty=lambda: None):
        """A value which is read as a type that only its use determines."""
        x = self.deref(v)
        if isinstance(x, Obj) and x.kind == "undecoded":
            for h in self.extra_methods:
                r = h(self, x, "$ready", lambda: [ty()], None, None)
                if r is not NotImplemented:
                    return r
        return v

    def read_type(self, arms, want, env, fc):
        """The type of x in `match .. { Ok(x) => .., .. }`, from what the arm makes of it."""
        for arm in arms:
            p = getattr(arm, "pat", None)
            if p is None or p.kind != "ptstruct" or len(p.elems) != 1 or p.elems[0].kind not in ("pname", "pident") or \
                    p.path.segs[-1][0] not in ("Ok", "Some"):
                continue
            b = arm.e
            while b.kind == "block" and not b.stmts and b.tail is not None:
                b = b.tail

            def bound(x):
                return x.kind == "path" and len(x.segs) == 1 and x.segs[0][0] == p.elems[0].name
            w = want.inner if want is not None and want.kind == "tryof" else want
            if bound(b):
                return self.type_val(w, fc) if w is not None else None
            if b.kind != "call" or len(b.args) != 1:
                return None
            if bound(b.args[0]) and b.f.kind == "path" and b.f.segs[-1][0] in ("Ok", "Some"):
                if w is not None and w is want and w.kind == "path" and w.segs[-1][0] in ("Result", "Option") and w.segs[-1][1]:
                    return self.type_val(w.segs[-1][1][0], fc)
                return None
            e = Env(env)
            probe = Obj("decoded", ("?",))
            e.bind(p.elems[0].name, probe)
            r = self.deref(self.eval(b, e, fc, want))
            while isinstance(r, EnumV) and isinstance(r.payload, tuple) and len(r.payload) == 1:
                x = self.deref(r.payload[0])
                if x is probe:
                    for d in (r.defn.node.variants if isinstance(r.defn, Defn) else ()):
                        if d.kind == "variant" and d.name == r.variant and d.style == "tuple":
                            return self.type_val(d.fields[0].ty, FCtx(r.defn.module))
                    return None
                r = x
        return None

    def e_return(self, n, env, fc, want):
        raise Return(self.eval(n.e, env, fc, fc.ret) if n.e is not None else UNIT)

    def e_break(self, n, env, fc, want):
        raise Break(n.label, self.eval(n.e, env, fc) if n.e is not None else UNIT)

    def e_continue(self, n, env, fc, want):
        raise Continue(n.label)

    def e_try(self, n, env, fc, want):
        v = self.deref(self.eval(n.e, env, fc, N("tryof", inner=want)))
        v = self.m.force_enum(v)
        if v.variant in ("Ok", "Some"):
            return v.payload[0]
        if v.variant == "None":
            raise Return(NONE)
        raise Return(err(v.payload[0]))

    def e_await(self, n, env, fc, want):
        return self.await_(self.eval(n.e, env, fc), n)

    def e_closure(self, n, env, fc, want):
        return ClosureV(n, (env, fc), self)

    def e_asyncblock(self, n, env, fc, want):
        return ClosureV(n, (env, fc), self)

    def e_while(self, n, env, fc, want):
        return self.m.while_loop(n, env, fc)

    def e_loop(self, n, env, fc, want):
        return self.m.plain_loop(n, env, fc)

    def e_for(self, n, env, fc, want):
        return self.m.for_loop(n, env, fc)

    # -- calls
    def eval_args(self, args, env, fc, wants=None):
        out = []
        for i, a in enumerate(args):
            if a.kind == "splice":
                s = self.splice_values(a.seq, env, fc)
                parts = self.ctx.norm(s)
                if all(isinstance(p, One) for p in parts):
                    out.extend(p.v for p in parts)
                else:
                    out.append(StructV("$spread", {"seq": SeqV(parts)}))
            else:
                out.append(self.eval(a, env, fc, wants[i] if wants and i < len(wants) else None))
        return out

    def e_call(self, n, env, fc, want):
        f = n.f
        while f.kind == "paren":
            f = f.e
        if f.kind == "pathe":
            p = f.path
            local = None
            if p.qself is None and len(p.segs) == 1 and not p.glob:
                local = env.box(p.segs[0][0])
            if local is None:
                r = self.path_target(p, fc)
                if r[0] == "fn":
                    d, self_ty, im, tp, tyargs = r[1:]
                    ptypes = [x.ty for x in d.node.params if x.kind == "param"]
                    if d.node.self_param is not None:
                        ptypes = [None] + ptypes
                    args = self.eval_args(n.args, env, fc, None)
                    return self.call_defn(d, args, self_ty, im, tp, tyargs)
                if r[0] == "variant":
                    d, v = r[1], r[2]
                    wants = [x.ty for x in v.fields]
                    args = self.eval_args(n.args, env, fc, wants)
                    args = [self.coerce(a, w, d.module) for a, w in zip(args, wants)]
                    return EnumV(d.name, v.name, tuple(args), d)
                if r[0] == "ext":
                    return self.m.ext_call(r[1], r[2], n.args, env, fc, n, want)
                if r[0] == "traitm":
                    args = self.eval_args(n.args, env, fc)
                    return self.m.method(args[0], r[2], args[1:], n, fc, want=want)
                if r[0] == "traitfn":
                    args = self.eval_args(n.args, env, fc)
                    return self.call_trait(r[1], r[2], r[3], args, n, r[4])
                fv = self.path_value(p, fc, f)
                return self.call(fv, self.eval_args(n.args, env, fc), n)
        fv = self.eval(f, env, fc)
        return self.call(fv, self.eval_args(n.args, env, fc), n)

    def coerce(self, v, ty, module):
        return v

    def e_mcall(self, n, env, fc, want):
        # receiver as place when it is one (methods taking &mut self)
        name = n.name
        rk = n.e
        while rk.kind == "paren":
            rk = rk.e
        if rk.kind in ("pathe", "field", "fieldhole", "deref", "index"):
            if rk.kind == "pathe" and (len(rk.path.segs) != 1 or rk.path.qself is not None or
                                       env.box(rk.path.segs[0][0]) is None):
                recv = self.eval(rk, env, fc)
                pl = None
            else:
                pl = self.place(rk, env, fc)
                recv = pl
        else:
            recv = self.eval(rk, env, fc)
        tyargs = n.generics
        return self.m.method(recv, name, None, n, fc, argnodes=n.args, env=env, tyargs=tyargs, want=want)

    def e_structlit(self, n, env, fc, want):
        segs = [s[0] for s in n.path.segs]
        d = v = None
        if n.path.qself is None and segs == ["Self"] and not n.path.glob:
            t = fc.self_ty
            d = t[1] if t[0] == "adt" else None
        else:
            r = self.path_target_struct(n.path, fc)
            d, v = r
        fields = {}
        decl = {}
        if v is not None:
            decl = {f.name: f.ty for f in v.fields if f.kind == "field"}
        elif isinstance(d, Defn):
            decl = {f.name: f.ty for f in d.node.fields if f.kind == "field"}
            if d.node.style == "tuple":
                decl = {str(i): f.ty for i, f in enumerate(d.node.fields)}
        for name, e in n.fields:
            fields[name] = self.eval(e, env, fc, decl.get(name))
            fields[name] = self.m.coerce_to(fields[name], decl.get(name), d, fc)
        if n.base is not None:
            b = self.deref(self.eval(n.base, env, fc))
            if not isinstance(b, StructV):
                self.unsupported("struct update", n)
            for k, x in b.fields.items():
                fields.setdefault(k, x)
        if v is not None:
            return EnumV(d.name, v.name, fields, d)
        if isinstance(d, Defn):
            return StructV(d.name, fields, d)
        return StructV(d if isinstance(d, str) else str(d), fields, None)

    def path_target_struct(self, path, fc):
        segs = [s[0] for s in path.segs]
        if path.qself is None and segs[0] == "Self" and not path.glob:
            t = fc.self_ty
            if t[0] == "adt" and isinstance(t[1], Defn) and t[1].kind == "enum":
                for v in self.variants_of(t[1]):
                    if v.name == segs[1]:
                        return t[1], v
            if len(segs) == 1:
                return t[1], None
        if path.qself is not None:
            raise Unsupported("qualified struct literal")
        r = self.resolve(fc, segs, glob=path.glob)
        if isinstance(r, list):
            for d in r:
                if d.kind == "struct":
                    return d, None
                if d.kind == "type":
                    t = self.type_val(d.node.ty, FCtx(d.module))
                    return t[1], None
        if isinstance(r, tuple) and r[0] == "assoc":
            for d in r[1]:
                if d.kind == "enum":
                    for v in self.variants_of(d):
                        if v.name == r[2][0]:
                            return d, v
        if isinstance(r, tuple) and r[0] == "ext":
            return r[1], None
        raise Unsupported("struct literal %s" % "::".join(map(str, segs)))

    # -- macros
    def e_macro(self, n, env, fc, want):
        return self.q.macro(n, env, fc, want)

    # ------------------------------------------------------------------ patterns
    def match(self, p, v, env, fc, irrefutable=False):
        k = p.kind
        if k == "pwild" or k == "prest":
            return True
        if k == "pident":
            if p.sub is not None:
                if not self.match(p.sub, v, env, fc):
                    return False
            env.bind(p.name, v)
            return True
        if k == "pname":
            # binding, or a unit variant / constant
            name = p.name
            if isinstance(name, str) and (name[:1].isupper()):
                r = self.try_variant(p.path, fc)
                if r is not None:
                    return self.match_variant(v, r, None, env, fc)
                if name in ("None",):
                    return self.match_variant(v, ("Option", "None"), None, env, fc)
                try:
                    c = self.path_value(p.path, fc)
                except Unsupported:
                    c = None
                if c is not None:
                    return self.truth(self.m.eq(self.deref(v), self.deref(c)))
            env.bind(name, v)
            return True
        if k == "pref":
            return self.match(p.p, self.m.deref_value(self.deref(v)), env, fc)
        if k == "por":
            if all(a.kind == "plit" and not isinstance(a.v, bool) and a.lk in ("str", "char") for a in p.alts):
                x = self.deref(v)
                es = [self.m.eq(x, Ch(a.v) if a.lk == "char" else a.v if isinstance(a.v, S) else S(a.v)) for a in p.alts]
                return self.truth(self.m.any_of(es))
            for a in p.alts:
                e2 = Env()
                if self.match(a, v, e2, fc):
                    env.vars.update(e2.vars)
                    return True
            return False
        if k == "plit":
            x = self.deref(v)
            if isinstance(p.v, bool):
                if isinstance(x, bool):
                    return x == p.v
                return self.ctx.branch(x == p.v)
            if p.lk == "char":
                return self.truth(self.m.eq(x, Ch(p.v)))
            if p.lk == "str":
                return self.truth(self.m.eq(x, p.v if isinstance(p.v, S) else S(p.v)))
            return self.truth(self.m.eq(x, p.v))
        if k == "prange":
            x = self.deref(v)
            lo = self.pat_const(p.lo, fc)
            hi = self.pat_const(p.hi, fc) if p.hi is not None else None
            c = x.code() if isinstance(x, Ch) else x
            conds = []
            conds.append(c >= lo)
            if hi is not None:
                conds.append(c <= hi if p.incl else c < hi)
            for cd in conds:
                if not self.truth(cd if isinstance(cd, (bool, z3.BoolRef)) else bool(cd)):
                    return False
            return True
        if k == "ptuple":
            x = self.deref(v)
            if x is UNIT and not p.elems:
                return True
            if isinstance(x, TupleV):
                return self.match_list(p.elems, x.elems, env, fc)
            xs = self.m.as_tuple(x, len(p.elems))
            return self.match_list(p.elems, xs, env, fc)
        if k == "pslice":
            x = self.deref(v)
            return self.m.match_slice(p, x, env, fc)
        if k == "ppath":
            r = self.try_variant(p.path, fc)
            if r is not None:
                return self.match_variant(v, r, None, env, fc)
            c = self.path_value(p.path, fc)
            return self.truth(self.m.eq(self.deref(v), self.deref(c)))
        if k == "ptstruct":
            x = self.deref(v)
            r = self.try_variant(p.path, fc)
            if r is None:
                segs = [s[0] for s in p.path.segs]
                # tuple struct
                if isinstance(x, StructV):
                    vals = [x.fields[str(i)] for i in range(len(x.fields))]
                    return self.match_list(p.elems, vals, env, fc)
                r = (segs[-2] if len(segs) > 1 else None, segs[-1])
            return self.match_variant(v, r, p.elems, env, fc)
        if k == "pstruct":
            x = self.deref(v)
            r = self.try_variant(p.path, fc)
            if r is not None:
                return self.match_variant(v, r, p, env, fc)
            if isinstance(x, StructV):
                return self.match_fields(p, x.fields, env, fc, x)
            if isinstance(x, Obj):
                for name, sub in p.fields:
                    if not self.match(sub, self.m.field(x, name), env, fc):
                        return False
                return True
            segs = [s[0] for s in p.path.segs]
            return self.match_variant(v, (segs[-2] if len(segs) > 1 else None, segs[-1]), p, env, fc)
        if k == "phole":
            x = self.deref(p.v)
            if isinstance(x, S):
                return self.truth(self.m.eq(self.deref(v), x))
            raise Unsupported("pattern hole %r" % (x,))
        raise Unsupported("pattern %s" % k)

    def pat_const(self, p, fc):
        if p.kind == "plit":
            if p.lk == "char":
                return ord(p.v)
            return p.v
        if p.kind in ("ppath", "path_e"):
            return self.path_value(p.path, fc)
        raise Unsupported("range pattern")

    def match_list(self, pats, vals, env, fc):
        ri = [i for i, q in enumerate(pats) if q.kind == "prest"]
        if ri:
            i = ri[0]
            a, b = pats[:i], pats[i + 1:]
            if len(a) + len(b) > len(vals):
                return False
            pairs = list(zip(a, vals[:i])) + (list(zip(b, vals[-len(b):])) if b else [])
        else:
            if len(pats) != len(vals):
                raise Unsupported("tuple pattern arity")
            pairs = list(zip(pats, vals))
        for q, x in pairs:
            if not self.match(q, x, env, fc):
                return False
        return True

    def match_fields(self, p, fields, env, fc, obj=None):
        for name, sub in p.fields:
            if name not in fields:
                raise Unsupported("pattern field %s" % name)
            if not self.match(sub, fields[name], env, fc):
                return False
        return True

    def try_variant(self, path, fc):
        """(defn or enum name, variant name) when the path names an enum variant."""
        segs = [s[0] for s in path.segs]
        if path.qself is not None:
            if segs[-1] in ("Ok", "Err"):
                return ("Result", segs[-1])
            if segs[-1] in ("Some", "None"):
                return ("Option", segs[-1])
        if len(segs) >= 2 and segs[0] == "Self" and fc.self_ty is not None:
            t = fc.self_ty
            if t[0] == "adt" and isinstance(t[1], Defn) and t[1].kind == "enum":
                return (t[1], segs[-1])
            if t[0] == "adt" and isinstance(t[1], Defn):
                return None
        r = self.resolve(fc, segs, glob=path.glob)
        if isinstance(r, tuple) and r[0] == "assoc":
            for d in r[1]:
                if d.kind == "enum":
                    return (d, r[2][0])
            return None
        if isinstance(r, list):
            return None
        if segs[-1] in ("Some", "None") and (len(segs) == 1 or segs[-2] == "Option"):
            return ("Option", segs[-1])
        if segs[-1] in ("Ok", "Err") and (len(segs) == 1 or segs[-2] == "Result"):
            return ("Result", segs[-1])
        if len(segs) >= 2:
            return (str(segs[-2]), segs[-1])
        if isinstance(r, tuple) and "::" in r[1]:
            q = r[1].split("::")
            return (q[-2], q[-1])
        return None

    def match_variant(self, v, target, sub, env, fc):
        x = self.deref(v)
        if isinstance(x, TypeV):
            e = self.m.type_as_enum(x)
            if e is not None:
                x = e
        tgt = target[0].name if isinstance(target[0], Defn) else target[0]
        name = target[1]
        if isinstance(x, TokV) and tgt == "Type":
            # a type made with parse_quote!
            t = self.type_val(P(list(x.toks)).type(), fc)
            if t[0] == "tuple":
                return name == "Tuple" and self.match_variant(EnumV("Type", "Tuple", (TypeV(t),)), target, sub, env, fc)
        if isinstance(x, SymEnum):
            if tgt is not None and x.enum != tgt and not self.m.enum_alias(x.enum, tgt):
                raise Unsupported("pattern of enum %s on %s" % (tgt, x.enum))
            idx = None
            for i, (vn, th) in enumerate(x.variants):
                if vn == name:
                    idx = i
            if idx is None:
                return False
            if not self.ctx.branch(x.tag == idx):
                return False
            payload = x.variants[idx][1]()
            x = EnumV(x.enum, name, payload, x.defn)
        elif isinstance(x, EnumV):
            if tgt is not None and x.enum != tgt and not self.m.enum_alias(x.enum, tgt):
                raise Unsupported("pattern of enum %s on %s" % (tgt, x.enum))
            if x.variant != name:
                return False
        elif isinstance(x, Obj) and x.kind == "undecoded" and self.decoded(x) is not x:
            return self.match_variant(self.decoded(x), target, sub, env, fc)
        elif isinstance(x, Obj):
            h = self.m.obj_variant(x, name)
            if h is None:
                return False
            x = EnumV(tgt, name, h)
        else:
            raise Unsupported("enum pattern %s::%s on %r" % (tgt, name, x))
        if sub is None:
            return True
        if isinstance(sub, list):
            pl = x.payload
            if isinstance(pl, dict):
                raise Unsupported("tuple pattern on struct variant")
            return self.match_list(sub, list(pl), env, fc)
        if not isinstance(x.payload, dict):
            if not sub.fields:
                return True
            raise Unsupported("struct pattern on tuple variant")
        return self.match_fields(sub, x.payload, env, fc)


class Meaning:
    """Expression tokens whose value is given by a contract."""
    hole_kind = "expr"
    __slots__ = ("run", "name")

    def __init__(self, run, name=""):
        self.run = run
        self.name = name

    def __repr__(self):
        return "Meaning(%s)" % self.name


PRELUDE = {"alloc": "std", "core": "std"}


def norm_path(p):
    segs = p.split("::")
    if segs[0] in PRELUDE:
        segs[0] = PRELUDE[segs[0]]
    return segs
