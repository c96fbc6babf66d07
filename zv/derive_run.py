"""Runs the derive entry point on an arbitrary declaration and evaluates what it emits."""
import z3
from core import *
from interp import Interp, FCtx
from rlex import Tok
import decl
import strings


class Emitted:
    """The items the derive emitted, on the current path."""

    def __init__(self, it, toks):
        self.it = it
        self.mod, self.impls = decl.user_module(it, toks)
        it.keep.append((self.mod, self.impls))
        it.user_impls = self.impls
        self.submits = getattr(self.mod, "item_macros", [])

    def impl(self, trait):
        r = [im for im in self.impls if im.trait_name == trait]
        if len(r) != 1:
            raise Unsupported("%d implementations of %s emitted" % (len(r), trait))
        return r[0]

    def self_ty(self, im):
        return self.it.type_val(im.ty, FCtx(im.module))

    def call(self, trait, name, args=()):
        im = self.impl(trait)
        t = self.self_ty(im)
        d = im.fns.get(name)
        if d is None:
            d = self.it.trait_default(im, name, "fns")
        if d is None:
            raise Unsupported("no %s::%s emitted" % (trait, name))
        return self.it.call_defn(d, list(args), t, im)


def make(prog, kind, deadline=None):
    ctx = Ctx(deadline)
    it = Interp(prog, ctx)
    it.keep = []
    D = decl.Decl(it, kind)
    decl.install(it, D)
    docs = decl.docs_contract(it)
    strings.install(it, strings.prove(prog))
    return it, D


def entry(prog, name):
    ds = [d for d in prog.find_fns("zod_derive::" + name) if d.module.crate == "zod_derive"]
    if len(ds) != 1:
        raise Unsupported("entry point %s not found" % name)
    return ds[0]


def expand(it, prog, name, args):
    """TokV of the expansion (may raise Panic / Abort)."""
    r = it.deref(it.call_defn(entry(prog, name), args))
    if not isinstance(r, TokV):
        raise Unsupported("the macro does not return tokens")
    return r
