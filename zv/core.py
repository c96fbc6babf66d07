"""Path context, symbolic values and the theory of unbounded sequences.

Every value a Rust program computes is represented by an immutable Python object.  Sequences of
unknown length are comprehensions over an opaque base sequence: the base has a symbolic length
(an unconstrained non-negative integer) and its elements are objects whose attributes are
uninterpreted functions of the element index.  Nothing is unrolled: a statement about a
comprehension is proved for one fresh index (universal introduction), existential questions
introduce counting classes with the usual axioms.
"""
import time
import z3


class Unsupported(Exception):
    """The construct is outside the reach of the verifier (the obligation is undecided)."""


class Infeasible(Exception):
    pass


class Control(Exception):
    pass


class Panic(Control):
    def __init__(self, msg):
        self.msg = msg
        super().__init__(msg)


class Abort(Control):
    """proc_macro_error::abort!: a deliberate compile error."""

    def __init__(self, msg):
        self.msg = msg
        super().__init__(msg)


class Return(Control):
    def __init__(self, v):
        self.v = v


class Break(Control):
    def __init__(self, label, v):
        self.label = label
        self.v = v


class Continue(Control):
    def __init__(self, label):
        self.label = label


# --------------------------------------------------------------------------------------
# values

UNIT = ("unit",)


class Obj:
    """An opaque object: attributes are uninterpreted functions of `args`."""
    __slots__ = ("kind", "args", "meta")

    def __init__(self, kind, args=(), meta=None):
        self.kind = kind
        self.args = tuple(args)
        self.meta = meta or {}

    def __repr__(self):
        return "%s(%s)" % (self.kind, ",".join(map(str, self.args)))


class Hole:
    """An unknown string, a function `fn` of `args`."""
    __slots__ = ("fn", "args")

    def __init__(self, fn, args=()):
        self.fn = fn
        self.args = tuple(args)

    def __repr__(self):
        return "«%s(%s)»" % (self.fn, ",".join(map(str, self.args)))


class Join:
    __slots__ = ("sep", "seq")

    def __init__(self, sep, seq):
        self.sep = sep
        self.seq = seq

    def __repr__(self):
        return "Join(%r, %r)" % (self.sep, self.seq)


class Fold:
    """Result of a loop whose steps depend on the accumulated string."""
    __slots__ = ("comp", "init", "step", "empty")

    def __init__(self, comp, init, step):
        self.empty = None          # formula "the result is empty" (unconstrained)
        self.comp = comp
        self.init = init
        self.step = step

    def __repr__(self):
        return "Fold(..)"


class S:
    """String term: concatenation of literal text, holes and joins."""
    __slots__ = ("parts",)

    def __init__(self, *parts):
        out = []
        for p in parts:
            if isinstance(p, S):
                for q in p.parts:
                    if isinstance(q, str) and out and isinstance(out[-1], str):
                        out[-1] += q
                    elif q != "":
                        out.append(q)
            elif isinstance(p, str):
                if p == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
            else:
                out.append(p)
        self.parts = tuple(out)

    def const(self):
        if not self.parts:
            return ""
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    def __repr__(self):
        return "S" + repr(list(self.parts))


class Ch:
    """A char: concrete (str of length one) or symbolic (z3 Int code point)."""
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def code(self):
        return ord(self.c) if isinstance(self.c, str) else self.c

    def __repr__(self):
        return "Ch(%r)" % (self.c,)


class Ident:
    hole_kind = "ident"
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s if isinstance(s, S) else S(s)

    def text(self):
        return self.s.const()

    def __eq__(self, o):
        return isinstance(o, Ident) and repr(self.s) == repr(o.s)

    def __hash__(self):
        return hash(repr(self.s))

    def __repr__(self):
        return "Ident(%r)" % (self.s,)


class TypeV:
    """A Rust type. t: ('obj', Obj) | ('path', name, [args]) | ('ref', t) | ('tuple', [..]) | ('array', t, n) | ..."""
    __slots__ = ("t",)
    is_type = True

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "Ty%r" % (self.t,)


class TokV:
    """A token stream."""
    __slots__ = ("toks", "meaning", "comma")

    def __init__(self, toks, meaning=None):
        self.toks = toks
        self.meaning = meaning
        self.comma = False

    def __repr__(self):
        return "Tok[" + " ".join(map(repr, self.toks)) + "]"


class StructV:
    __slots__ = ("defn", "name", "fields")

    def __init__(self, name, fields, defn=None):
        self.name = name
        self.fields = fields
        self.defn = defn

    def __repr__(self):
        return "%s%r" % (self.name, self.fields)


class EnumV:
    __slots__ = ("enum", "variant", "payload", "defn")

    def __init__(self, enum, variant, payload=(), defn=None):
        self.enum = enum
        self.variant = variant
        self.payload = payload      # tuple (list) or dict
        self.defn = defn

    def __repr__(self):
        return "%s::%s%s" % (self.enum, self.variant, self.payload if self.payload else "")


class SymEnum:
    """Enum value whose variant is a z3 Int `tag`; variants: list of (name, thunk -> payload)."""
    __slots__ = ("enum", "tag", "variants", "defn", "key")

    def __init__(self, enum, tag, variants, key=None, defn=None):
        self.enum = enum
        self.tag = tag
        self.variants = variants
        self.key = key
        self.defn = defn

    def __repr__(self):
        return "%s?%s" % (self.enum, self.tag)


class TupleV:
    __slots__ = ("elems",)

    def __init__(self, elems):
        self.elems = list(elems)

    def __repr__(self):
        return "Tuple%r" % (self.elems,)


class ClosureV:
    __slots__ = ("node", "env", "interp")

    def __init__(self, node, env, interp):
        self.node = node
        self.env = env
        self.interp = interp


class PyFn:
    """A function value implemented by the verifier."""
    __slots__ = ("f", "name")

    def __init__(self, f, name=""):
        self.f = f
        self.name = name


class FnV:
    __slots__ = ("defn",)

    def __init__(self, defn):
        self.defn = defn


_stamp = [0]


class Box_:
    __slots__ = ("v", "stamp")

    def __init__(self, v=None):
        self.v = v
        _stamp[0] += 1
        self.stamp = _stamp[0]


class RefV:
    """A mutable reference: a place."""
    __slots__ = ("get", "set")

    def __init__(self, get, set):
        self.get = get
        self.set = set


def some(v):
    return EnumV("Option", "Some", (v,))


NONE = EnumV("Option", "None", ())


def ok(v):
    return EnumV("Result", "Ok", (v,))


def err(v):
    return EnumV("Result", "Err", (v,))


# --------------------------------------------------------------------------------------
# sequences

class Base:
    """Opaque base sequence `fn(args)`, with symbolic length."""
    __slots__ = ("fn", "args", "mk", "n")

    def __init__(self, fn, args, mk):
        self.fn = fn
        self.args = tuple(args)
        self.mk = mk                # idx -> element value
        self.n = z3.Function(fn + "#len", *([z3.IntSort()] * len(self.args)), z3.IntSort())(*self.args) \
            if self.args else z3.Int(fn + "#len")

    def same(self, other, ctx):
        return self.fn == other.fn and len(self.args) == len(other.args) and \
            all(ctx.must(a == b) for a, b in zip(self.args, other.args))


class Elem:
    __slots__ = ("base", "idx")

    def __init__(self, base, idx):
        self.base = base
        self.idx = idx


_cid = [0]


class Comp:
    """Comprehension: for each index of base (in order), the parts produced by body(elem)."""
    __slots__ = ("base", "body", "total", "id", "rev", "settled", "like")

    def __init__(self, base, body, total, rev=False):
        self.base = base
        self.body = body            # Elem -> list of parts (One values or Comp)
        self.total = total          # every element yields exactly one value
        self.rev = rev
        self.settled = False
        self.like = None            # a comprehension which selects the same elements, one value each
        _cid[0] += 1
        self.id = _cid[0]

    def __repr__(self):
        return "Comp(%s#%d)" % (self.base.fn, self.id)


class One:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "One(%r)" % (self.v,)


class SeqV:
    """A vector, slice or iterator: list of parts. kind is informative ('vec', 'iter', 'str', ..)."""
    __slots__ = ("parts", "kind")

    def __init__(self, parts, kind="vec"):
        self.parts = list(parts)
        self.kind = kind

    def __repr__(self):
        return "Seq%r" % (self.parts,)


def seq_of(values):
    return SeqV([One(v) for v in values])


def mentions_fresh(f, start):
    """Does a formula mention a constant created after counter value `start`?"""
    todo = [f]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = x.decl().name()
            if "!" in nm:
                try:
                    if int(nm.rsplit("!", 1)[1]) > start:
                        return True
                except ValueError:
                    pass
        todo.extend(x.children())
    return False


class Frame:
    __slots__ = ("prefix", "pos", "conds", "seq")

    def __init__(self, seq=0):
        self.seq = seq
        self.prefix = []
        self.pos = 0
        self.conds = []


class CountClass:
    __slots__ = ("comp", "cnt", "first", "pres")

    def __init__(self, comp, cnt, first):
        self.comp = comp
        self.cnt = cnt
        self.first = first
        self.pres = []


import os as _os
NOMEMO = bool(_os.environ.get("ZV_NOMEMO"))
STATS = {"queries": 0, "time": 0.0, "obligations": 0}


class Ctx:
    MAX_PATHS = 20000

    def __init__(self, deadline=None):
        self.solver = z3.Solver()
        # a deterministic resource limit (a wall-clock timeout starts a timer thread per query)
        self.solver.set("rlimit", 20000000)
        self.frames = []
        self.counter = 0
        self.elems = []        # Elem list (known witnesses / generic elements)
        self.classes = []      # CountClass list
        self.trace = []
        self.undo = []
        self.deadline = deadline
        self.known_bases = {}
        self.unknown_seen = False
        self.notes = {}
        self.sat_cache = {}
        self.depth = 0
        self.hooks = []
        self.seq = 0
        self.memo_table = {}
        self.memo_path = ()
        self.known_facts = {}  # id of an asserted fact -> (fact, scope depth)
        self.fact_log = []

    # -- solver ---------------------------------------------------------------
    def check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the verifier exhausted")
        t0 = time.time()
        r = self.solver.check(*extra)
        STATS["time"] += time.time() - t0
        STATS["queries"] += 1
        if r == z3.unknown:
            raise Unsupported("solver returned unknown")
        return r == z3.sat

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        self.solver.add(c)
        if self.frames:
            self.frames[-1].conds.append(c)

    def fact(self, c):
        """A theory axiom instance: true by construction, not part of the path condition."""
        if isinstance(c, bool):
            assert c
            return
        self.solver.add(c)

    def must(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return not self.check(z3.Not(c))

    def may(self, c):
        if isinstance(c, bool):
            return c
        return self.check(c)

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if not self.frames:
            raise Unsupported("branch outside exploration")
        fr = self.frames[-1]
        if fr.pos < len(fr.prefix):
            d, forced = fr.prefix[fr.pos]
        else:
            t = self.check(c)
            f = self.check(z3.Not(c))
            if t and f:
                d, forced = True, False
            elif t:
                d, forced = True, True
            elif f:
                d, forced = False, True
            else:
                raise Infeasible()
            fr.prefix.append((d, forced))
        fr.pos += 1
        if not forced:
            self.assume(c if d else z3.Not(c))
        return d

    def choose(self, n, hint=""):
        """Nondeterministic choice of an integer in 0..n-1 (forks the path)."""
        v = self.fresh_int("choice_" + hint)
        for i in range(n - 1):
            if self.branch(v == i):
                return i
        return n - 1

    def fresh(self, prefix):
        self.counter += 1
        return "%s!%d" % (prefix, self.counter)

    def fresh_int(self, prefix):
        return z3.Int(self.fresh(prefix))

    def fresh_bool(self, prefix):
        return z3.Bool(self.fresh(prefix))

    # -- exploration ------------------------------------------------------------
    def snapshot(self):
        return (self.counter, len(self.elems), len(self.classes), len(self.trace), len(self.undo),
                len(self.fact_log), self.seq)

    def restore(self, s):
        c, e, k, t, u, fl, self.seq = s
        for i in self.fact_log[fl:]:
            self.known_facts.pop(i, None)
        del self.fact_log[fl:]
        self.counter = c
        del self.elems[e:]
        for kl in self.classes[:k]:
            pass
        del self.classes[k:]
        del self.trace[t:]
        while len(self.undo) > u:
            box, old = self.undo.pop()
            box.v = old

    def write(self, box, v):
        self.undo.append((box, box.v))
        box.v = v

    def memo(self, kind, fn):
        """Result of a side-effect free sub-computation.  Paths are replayed from the start with the same
        decisions, so the result at the same point of the same path prefix is the same."""
        self.seq += 1
        s = self.seq
        # computations inside this one are numbered apart from those after it
        key = (kind, self.memo_path, s, tuple((f.seq, tuple(f.prefix[:f.pos])) for f in self.frames))
        if key in self.memo_table and not NOMEMO:
            return self.memo_table[key]
        saved = self.memo_path
        self.memo_path = saved + (s,)
        try:
            r = fn()
        finally:
            self.memo_path = saved
            self.seq = s
        self.memo_table[key] = r
        return r

    def explore(self, fn, limit=None):
        """Run fn on every feasible path. Returns [(conds, kind, value)].

        kind is 'ok', 'panic', 'abort', 'return', 'break', 'continue'."""
        results = []
        self.seq += 1
        fr = Frame(self.seq)
        self.frames.append(fr)
        snap = self.snapshot()
        n = 0
        try:
            while True:
                n += 1
                if n > (limit or self.MAX_PATHS):
                    raise Unsupported("too many paths")
                self.solver.push()
                fr.pos = 0
                fr.conds = []
                npres = [(c, len(c.pres)) for c in self.classes]
                try:
                    try:
                        r = ("ok", fn())
                    except Infeasible:
                        r = None
                    except Panic as e:
                        r = ("panic", e)
                    except Abort as e:
                        r = ("abort", e)
                    except Return as e:
                        r = ("return", e)
                    except Break as e:
                        r = ("break", e)
                    except Continue as e:
                        r = ("continue", e)
                finally:
                    self.solver.pop()
                    self.restore(snap)
                    for c, k in npres:
                        del c.pres[k:]
                if r is not None:
                    results.append((list(fr.conds), r[0], r[1]))
                while fr.prefix and (fr.prefix[-1][1] or not fr.prefix[-1][0]):
                    fr.prefix.pop()
                if not fr.prefix:
                    break
                fr.prefix[-1] = (False, False)
        finally:
            self.frames.pop()
        return results

    # -- elements and counting classes -------------------------------------------
    def new_elem(self, base, name="i", idx=None, constrain=True):
        if idx is None:
            idx = self.fresh_int(name)
        e = Elem(base, idx)
        if constrain:
            self.fact_path(z3.And(idx >= 0, idx < base.n))
        self.elems.append(e)
        for c in list(self.classes):
            if self._same_base(c.comp.base, base):
                self._link(c, e)
        return e

    def fact_path(self, c):
        # facts about fresh constants hold only on this path; they stay on the solver stack
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        i = c.get_id()
        if i in self.known_facts:
            return
        self.known_facts[i] = c
        self.fact_log.append(i)
        self.solver.add(c)

    def _same_base(self, a, b):
        if a is b:
            return True
        if a.fn != b.fn or len(a.args) != len(b.args):
            return False
        return all(self.must(x == y) for x, y in zip(a.args, b.args))

    def presence(self, comp, elem):
        """Formula: comp yields something at elem. Only for bodies yielding at most one value."""
        comp = comp.like or comp
        if comp.total:
            return z3.BoolVal(True)
        return self.memo(("presence", comp.base.fn, elem.idx.get_id()), lambda: self.presence_(comp, elem))

    def presence_(self, comp, elem):
        start = self.counter
        res = self.explore(lambda: comp.body(elem))
        pos = []
        neg = []
        for conds, kind, v in res:
            if kind != "ok":
                raise Unsupported("control flow inside sequence element: %s" % kind)
            if len(v) == 0:
                neg.append(conds)
            elif len(v) == 1 and isinstance(v[0], One):
                pos.append(conds)
            else:
                raise Unsupported("element yields several values")
        if not neg:
            return z3.BoolVal(True)
        if not pos:
            return z3.BoolVal(False)

        def either(cases):
            if any(mentions_fresh(c, start) for conds in cases for c in conds):
                return None
            fs = [z3.And(*conds) if conds else z3.BoolVal(True) for conds in cases]
            return z3.Or(*fs) if len(fs) > 1 else fs[0]
        p = either(pos)
        if p is None:
            p = either(neg)
            if p is None:
                raise Unsupported("selection depends on an existential inside the element")
            p = z3.Not(p)
        return p

    def _link(self, c, e):
        p = self.presence(c.comp, e)
        self.fact_path(z3.Implies(p, z3.And(c.cnt >= 1, c.first <= e.idx)))
        self.fact_path(z3.Implies(z3.And(e.idx == c.first, c.cnt >= 1), p))
        for e2, p2 in c.pres:
            self.fact_path(z3.Implies(z3.And(p, p2, e.idx != e2.idx), c.cnt >= 2))
        c.pres.append((e, p))

    def klass(self, comp):
        """Counting class of a comprehension (shared by all with the same selection)."""
        comp = comp.like or comp
        for c in self.classes:
            if c.comp is comp:
                return c
        for c in self.classes:
            if self._same_base(c.comp.base, comp.base) and self.same_selection(c.comp, comp):
                return c
        cnt = self.fresh_int("cnt")
        first = self.fresh_int("first")
        c = CountClass(comp, cnt, first)
        self.fact_path(z3.And(cnt >= 0, comp.base.n >= 0, cnt <= comp.base.n))
        self.fact_path(z3.Implies(cnt >= 1, z3.And(first >= 0, first < comp.base.n)))
        if comp.total:
            self.fact_path(cnt == comp.base.n)
            self.fact_path(z3.Implies(cnt >= 1, first == 0))
        self.classes.append(c)
        # the first selected element is a known element
        fe = Elem(comp.base, first)
        p = self.presence(comp, fe)
        self.fact_path(z3.Implies(cnt >= 1, p))
        # the element at index 0 is an instance whenever there is one
        p0 = self.presence(comp, Elem(comp.base, z3.IntVal(0)))
        self.fact_path(z3.Implies(z3.And(comp.base.n >= 1, p0), z3.And(cnt >= 1, first == 0)))
        for e in list(self.elems):
            if self._same_base(e.base, comp.base):
                self._link(c, e)
        for c2 in list(self.classes):
            if c2 is not c and self._same_base(c2.comp.base, comp.base):
                # the first element of each class is an instance for the other
                p12 = self.presence(c2.comp, fe)
                self.fact_path(z3.Implies(z3.And(cnt >= 1, p12), z3.And(c2.cnt >= 1, c2.first <= first)))
                fe2 = Elem(comp.base, c2.first)
                p21 = self.presence(comp, fe2)
                self.fact_path(z3.Implies(z3.And(c2.cnt >= 1, p21), z3.And(cnt >= 1, first <= c2.first)))
        return c

    def same_selection(self, a, b):
        if a.total and b.total:
            return True
        return self.memo("same_selection", lambda: self.same_selection_(a, b))

    def same_selection_(self, a, b):
        self.solver.push()
        snap = self.snapshot()
        npres = [(c, len(c.pres)) for c in self.classes]
        try:
            idx = self.fresh_int("g")
            e = Elem(a.base, idx)
            self.solver.add(z3.And(idx >= 0, idx < a.base.n))
            pa = self.presence(a, e)
            pb = self.presence(b, e)
            return not self.check(pa != pb)
        finally:
            self.solver.pop()
            self.restore(snap)
            for c, k in npres:
                del c.pres[k:]

    def count(self, seq):
        """Number of elements of a sequence: Python int or z3 Int."""
        total = 0
        for p in self.norm(seq):
            if isinstance(p, One):
                total = total + 1
            elif p.total:
                self.fact_path(p.base.n >= 0)
                total = p.base.n if isinstance(total, int) and total == 0 else total + p.base.n
            else:
                k = self.klass(p).cnt
                total = k if isinstance(total, int) and total == 0 else total + k
        return total

    def nonempty(self, seq):
        n = self.count(seq)
        return n >= 1 if not isinstance(n, int) else n >= 1

    def at(self, comp, elem):
        """Values at an element on the current path (branches as needed)."""
        return comp.body(elem)

    def norm(self, seq):
        """Parts of a sequence, simplified with what the current path knows about its length."""
        out = []
        work = list(seq.parts)
        while work:
            p = work.pop(0)
            if isinstance(p, One):
                out.append(p)
                continue
            known = self.known_len(p.base)
            if known is not None:
                new = []
                order = range(known) if not p.rev else range(known - 1, -1, -1)
                for i in order:
                    new.extend(p.body(Elem(p.base, z3.IntVal(i))))
                work = new + work
                continue
            c = None
            if not p.total:
                for k in self.classes:
                    if k.comp is p:
                        c = k
                        break
                else:
                    for k in self.classes:
                        if self._same_base(k.comp.base, p.base) and self._cnt_known(k) is not None \
                                and self._single(p) and self.same_selection(k.comp, p):
                            c = k
                            break
            if c is not None:
                kn = self._cnt_known(c)
                if kn == 0:
                    continue
                if kn == 1:
                    work = self.assume_present(p, c.first) + work
                    continue
            elif not p.total and self._never(p):
                continue
            out.append(p)
        return out

    def _single(self, comp):
        try:
            self.presence_generic(comp)
            return True
        except Unsupported:
            return False

    def presence_generic(self, comp):
        e = Elem(comp.base, z3.Int("g!single"))
        return self.presence(comp, e)

    def _never(self, comp):
        return self.memo(("never", comp.base.fn), lambda: self._never_(comp))

    def _never_(self, comp):
        self.solver.push()
        snap = self.snapshot()
        npres = [(c, len(c.pres)) for c in self.classes]
        try:
            e = self.new_elem(comp.base, "n")
            try:
                p = self.presence(comp, e)
            except Unsupported:
                return False
            return not self.check(p)
        finally:
            self.solver.pop()
            self.restore(snap)
            for c, k in npres:
                del c.pres[k:]

    def assume_present(self, comp, idx):
        """Value of comp at an index where it is known to be present."""
        parts = comp.body(Elem(comp.base, idx))
        if len(parts) == 0:
            raise Infeasible()
        return parts

    def _cnt_known(self, c):
        for v in (0, 1):
            if self.must(c.cnt == v):
                return v
        return None

    def known_len(self, base):
        for v in (0, 1, 2):
            if self.must(base.n == v):
                return v
        return None

    def first(self, seq):
        """(value or None, rest SeqV): branches on emptiness."""
        parts = self.norm(seq)
        i = 0
        while i < len(parts):
            p = parts[i]
            if isinstance(p, One):
                return p.v, SeqV(parts[i + 1:], seq.kind)
            if p.rev:
                raise Unsupported("first of reversed unbounded sequence")
            c = self.klass(p)
            if self.branch(c.cnt >= 1):
                vals = self.assume_present(p, c.first)
                if len(vals) != 1 or not isinstance(vals[0], One):
                    raise Unsupported("first of nested sequence")
                f = c.first
                rest = Comp(p.base, (lambda e, p=p, f=f: p.body(e) if self.branch(e.idx > f) else []), False)
                return vals[0].v, SeqV([rest] + parts[i + 1:], seq.kind)
            i += 1
        return None, SeqV([], seq.kind)


def compose(ctx, seq, f):
    """map/filter/flat_map: f(value) -> list of parts."""
    out = []
    for p in seq.parts:
        if isinstance(p, One):
            out.extend(f(p.v))
        else:
            out.append(Comp(p.base, (lambda e, p=p: _flat(p.body(e), f)), False, p.rev))
    return SeqV(out, seq.kind)


def _flat(parts, f):
    out = []
    for q in parts:
        if isinstance(q, One):
            out.extend(f(q.v))
        else:
            out.append(Comp(q.base, (lambda e, q=q: _flat(q.body(e), f)), False, q.rev))
    return out


def seq_map(ctx, seq, f):
    out = []
    for p in seq.parts:
        if isinstance(p, One):
            out.append(One(f(p.v)))
        else:
            c = Comp(p.base, (lambda e, p=p: _flat(p.body(e), lambda v: [One(f(v))])), p.total, p.rev)
            c.like = p.like or p
            out.append(c)
    return SeqV(out, seq.kind)


def seq_filter(ctx, seq, pred):
    return compose(ctx, seq, lambda v: [One(v)] if ctx.branch(pred(v)) else [])
