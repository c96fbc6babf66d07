"""HashMap / BTreeMap by their pointwise meaning.

A map is the log of the operations applied to it: `append key delta` (entry(key).or_default() followed by appending to the value)
and `insert key value`. The value under a key is the fold of the operations on that key, in order; a key is present when some
operation names it. Iterating a map gives every present key exactly once with its value (no order is assumed)."""
import z3
from core import *
from interp import MapV

MAPS = {}        # base name -> map
_ids = [0]


def op(mode, key, val):
    return StructV("$op", {"mode": mode, "key": key, "val": val})


def copy(m, srcs):
    r = MapV(m.kind, srcs)
    r.vt = m.vt
    return r


def term(M, key):
    import std_models
    t = std_models.s_term(key)
    if t is None:
        raise Unsupported("map key %r" % (key,))
    return t


# ---------------------------------------------------------------- loop rule hooks
def marker_map(m, mk):
    import std_models
    return copy(m, [One(std_models.Marker(mk))])


def delta(m, mk):
    import std_models
    if not (isinstance(m, MapV) and m.srcs and isinstance(m.srcs[0], One) and isinstance(m.srcs[0].v, std_models.Marker)):
        raise Unsupported("map is not only added to")
    return m.srcs[1:]


def extended(m, comp):
    return copy(m, m.srcs + [comp])


# ---------------------------------------------------------------- operations
def kinds(t):
    """vec or str: the type of the values."""
    if t is not None and t[0] == "adt" and isinstance(t[1], str):
        n = t[1].split("::")[-1]
        return {"Vec": "vec", "String": "str"}.get(n)
    return None


def method(M, m, place, name, args, n):
    it = M.it
    if name == "entry":
        return StructV("$entry", {"place": place, "key": it.deref(args[0])})
    if name in ("iter", "into_iter", "drain"):
        r = iterate(M, m)
        if name == "drain":
            place.set(copy(m, []))
        return r
    if name in ("keys", "into_keys"):
        return project(iterate(M, m), 0)
    if name in ("values", "into_values"):
        return project(iterate(M, m), 1)
    if name == "insert" and place is not None:
        set_map(place, m.srcs + [One(op("insert", it.deref(args[0]), it.deref(args[1])))])
        return Obj("previous value")
    if name == "is_empty" and not m.srcs:
        return True
    raise Unsupported("map method " + name)


def set_map(place, srcs):
    p = place
    while isinstance(p.get(), RefV):
        p = p.get()
    p.set(copy(p.get(), srcs))


def project(seq, i):
    return SeqV([Comp(p.base, (lambda e, p=p: [One(q.v.elems[i]) for q in p.body(e)]), p.total) for p in seq.parts], "iter")


def entry_method(M, e, name, args):
    """or_default() and its like: a place holding the value under the key, of which only growth is followed."""
    place, key = e.fields["place"], e.fields["key"]
    it = M.it
    if place is None:
        raise Unsupported("entry of a temporary")
    p = place
    while isinstance(p.get(), RefV):
        p = p.get()
    m = p.get()
    vt = m.vt
    if name == "or_default":
        pass
    elif name in ("or_insert", "or_insert_with", "or_insert_with_key"):
        if name == "or_insert":
            v = it.deref(args[0])
        else:
            v = it.deref(it.call(args[0], [] if name == "or_insert_with" else [key]))
        vt = "vec" if isinstance(v, SeqV) and not v.parts else "str" if isinstance(v, S) and v.const() == "" else None
    else:
        raise Unsupported("entry." + name)
    if vt is None:
        raise Unsupported("values of an unknown kind in a map")
    mark = it.ctx.fresh("slot")
    import std_models
    init = S(Hole(mark)) if vt == "str" else SeqV([One(std_models.Marker(mark))], "vec")
    set_map(place, m.srcs + [One(op("append", key, S() if vt == "str" else SeqV([], "vec")))])

    def set_(v):
        if vt == "str":
            if not (isinstance(v, S) and v.parts and isinstance(v.parts[0], Hole) and v.parts[0].fn == mark):
                raise Unsupported("a value in a map is not only appended to")
            d = S(*v.parts[1:])
        else:
            if not (isinstance(v, SeqV) and v.parts and isinstance(v.parts[0], One) and isinstance(v.parts[0].v, std_models.Marker)):
                raise Unsupported("a value in a map is not only appended to")
            d = SeqV(v.parts[1:], "vec")
        set_map(place, p.get().srcs + [One(op("append", key, d))])
    return RefV(lambda: init, set_)


def from_pairs(M, name, seq, vt=None):
    """collect() of (key, value) pairs; a value collected without a stated type has the type of the map's values."""
    def one(v):
        v = M.it.deref(v)
        if not isinstance(v, TupleV) or len(v.elems) != 2:
            raise Unsupported("collect into a map")
        x = M.it.deref(v.elems[1])
        if vt == "str" and isinstance(x, SeqV):
            x = M.join(x, "")
        return op("insert", M.it.deref(v.elems[0]), x)
    srcs = []
    for p in M.ctx.norm(seq):
        if isinstance(p, One):
            srcs.append(One(one(p.v)))
        else:
            srcs.append(Comp(p.base, (lambda e, p=p: [One(one(q.v)) for q in p.body(e)]), p.total))
    return MapV(name, srcs, vt)


# ---------------------------------------------------------------- meaning
def base_of(m):
    if m.uid is None:
        _ids[0] += 1
        m.uid = "keys#%d" % _ids[0]
        MAPS[m.uid] = m
    return Base(m.uid, (), None)


def key_at(base, idx):
    return S(Hole("mapkey:" + base.fn, (idx,)))


def present(M, base, key):
    return z3.Function("present:" + base.fn, z3.IntSort(), z3.BoolSort())(term(M, key))


def index_of(M, base, key):
    return z3.Function("keyindex:" + base.fn, z3.IntSort(), z3.IntSort())(term(M, key))


def facts(M, base, idx, key):
    M.ctx.fact_path(z3.And(idx >= 0, idx < base.n, term(M, key_at(base, idx)) == term(M, key), present(M, base, key),
                           index_of(M, base, key) == idx))


def iterate(M, m):
    base = base_of(m)

    def body(e):
        k = key_at(base, e.idx)
        facts(M, base, e.idx, k)
        return [One(TupleV([k, value_at(M, m, k)]))]
    return SeqV([Comp(base, body, True)], "iter")


def pieces(v):
    return list(v.parts) if isinstance(v, SeqV) else [One(v)] if v.parts else []


def value_at(M, m, k):
    """The value under the key k, which is present."""
    it = M.it
    parts, vt = [], m.vt

    def apply(o, parts):
        v = o.fields["val"]
        if isinstance(v, S):
            kind = "str"
        elif isinstance(v, SeqV):
            kind = "vec"
        else:
            raise Unsupported("map value %r" % (v,))
        return (pieces(v) if o.fields["mode"] == "insert" else parts + pieces(v)), kind
    for p in m.srcs:
        if isinstance(p, One):
            if it.truth(M.eq(p.v.fields["key"], k)):
                parts, vt = apply(p.v, parts)
            continue
        if p.base.fn in MAPS:
            # one operation per key of another map: the one of the index of k, when k is a key of that map
            if it.truth(present(M, p.base, k)):
                e = Elem(p.base, index_of(M, p.base, k))
                facts(M, p.base, e.idx, k)
                for q in p.body(e):
                    if not isinstance(q, One) or not M.ctx.must(bz(M.eq(q.v.fields["key"], k))):
                        raise Unsupported("keys of a map built from another map")
                    parts, vt = apply(q.v, parts)
            # the keys of all other elements differ from k
            continue

        def body(e, p=p):
            out = []
            for q in p.body(e):
                if not isinstance(q, One):
                    raise Unsupported("nested additions to a map")
                if q.v.fields["mode"] != "append":
                    raise Unsupported("insertion in a loop")
                if it.truth(M.eq(q.v.fields["key"], k)):
                    out += pieces(q.v.fields["val"])
            return out
        parts = parts + [Comp(p.base, body, False)]
    if vt is None:
        ks = [p for p in parts if isinstance(p, One)]
        vt = "str" if ks and isinstance(ks[0].v, S) else None
    if vt == "str":
        return S(*[p.v if isinstance(p, One) else Join("", SeqV([p])) for p in parts])
    if vt == "vec":
        return SeqV(parts, "vec")
    raise Unsupported("values of an unknown kind in a map")


def bz(f):
    return z3.BoolVal(f) if isinstance(f, bool) else f
