"""What derive(Namespace) and derive(Backend) emit: the names under which things are registered and looked up."""
import z3
from core import *
from interp import FCtx, Env
import decl
import derive_run as dr
import ts
from ts import Mismatch
from p_core import runner


def mrun(prog, deadline, kind, body):
    it, D = dr.make(prog, kind, deadline)
    return runner(prog, deadline, lambda it, attempt: body(it, D, attempt), it)


def const_of(em, trait, name):
    im = em.impl(trait)
    d = im.consts.get(name)
    if d is None:
        raise Unsupported("no %s::%s emitted" % (trait, name))
    return em.it.deref(em.it.eval(d.node.e, Env(), FCtx(em.mod)))


def paths(it, fn):
    n = 0
    for conds, kind, r in it.ctx.explore(fn):
        if kind != "ok":
            raise Mismatch("%s: %s" % (kind, r))
        n += 1
    return n


def every(it, v, base, check, what):
    """v holds exactly one value per element of base, for which check(element, value) passes."""
    ps = it.ctx.norm(v) if isinstance(v, SeqV) else None
    if ps is None or len(ps) != 1 or not isinstance(ps[0], Comp):
        raise Unsupported("%s: %r" % (what, v))
    if not it.ctx._same_base(ps[0].base, base):
        raise Mismatch("%s is made of something else" % what, False)

    def one():
        e = it.ctx.new_elem(base, "n")
        xs = ps[0].body(e)
        if len(xs) != 1 or not isinstance(xs[0], One):
            raise Mismatch("%s: %d entries for an item" % (what, len(xs)))
        check(e, xs[0].v)
    return paths(it, one)


def namespace_task(prog, deadline):
    def body(it, D, attempt):
        def name():
            def run():
                em = dr.Emitted(it, dr.expand(it, prog, "derive_namespace", [TokV([])]).toks)
                v = it.m.to_s(const_of(em, "Namespace", "NAME"))
                has = it.ctx.branch(decl.zf("has_nsname", [], z3.IntSort()) == 1)
                want = S(Hole("nsname")) if has else it.m.to_s(it.m.method(D.ident, "unraw", [], None, None))
                ts.TS(it).strict(v, want)
            return paths(it, run)
        attempt("derive(Namespace): NAME is the given name, otherwise the plain identifier", name)
    return mrun(prog, deadline, "ns", body)


def backend_names_task(prog, deadline):
    def body(it, D, attempt):
        def names():
            def run():
                em = dr.Emitted(it, dr.expand(it, prog, "backend", [TokV([])]).toks)
                v = const_of(em, "Backend", "NS_NAMES")
                every(it, v, D.base, lambda e, x: ts.TS(it).strict(it.m.to_s(x), decl.tyhole("ns_name", D.field(e.idx).ty)),
                      "NS_NAMES")
            return paths(it, run)
        attempt("derive(Backend): NS_NAMES holds the names of the namespaces of its fields", names)
    return mrun(prog, deadline, "backend", body)
