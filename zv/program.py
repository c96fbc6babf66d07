"""Loading the real sources: crates, modules, name resolution, impl tables."""
import os
from rparse import parse_source, ParseError, N, P
from rlex import lex, Tok, LexError
from core import Unsupported

FEATURES = {"rpc", "inventory", "smol_str", "ordered-float", "default"}


def cfg_ok(attrs):
    """Evaluate #[cfg(..)] attributes (test and not(debug_assertions) are off)."""
    for a in attrs:
        if len(a) == 2 and a[0].k == "id" and a[0].v == "cfg" and a[1].k == "g":
            if not _cfg(a[1].v):
                return False
        if len(a) == 1 and a[0].k == "id" and a[0].v == "test":
            return False
    return True


def _cfg(toks):
    if not toks:
        return True
    t = toks[0]
    if t.k == "id" and t.v == "feature":
        return toks[2].v in FEATURES
    if t.k == "id" and t.v in ("all", "any", "not") and len(toks) > 1 and toks[1].k == "g":
        subs = []
        cur = []
        for x in toks[1].v:
            if x.k == "p" and x.v == ",":
                subs.append(cur)
                cur = []
            else:
                cur.append(x)
        if cur:
            subs.append(cur)
        vals = [_cfg(s) for s in subs]
        return all(vals) if t.v == "all" else any(vals) if t.v == "any" else not vals[0]
    if t.k == "id":
        return t.v in ("debug_assertions", "unix", "panic")
    return False


class Module:
    def __init__(self, prog, crate, path, parent):
        self.prog = prog
        self.crate = crate
        self.path = path
        self.parent = parent
        self.items = {}
        self.uses = []       # (alias, segs) or (None, segs) for globs
        self.macros = {}

    def add(self, name, defn):
        self.items.setdefault(name, []).append(defn)

    def __repr__(self):
        return self.crate + "::" + "::".join(self.path)


class Defn:
    """A named definition: kind in fn, struct, enum, const, type, trait, mod, macro."""

    def __init__(self, kind, name, node, module):
        self.kind = kind
        self.name = name
        self.node = node
        self.module = module
        self.impl = None      # enclosing impl
        self.self_ty = None

    def qual(self):
        p = [self.module.crate] + self.module.path
        if self.impl is not None and self.impl.ty_name:
            p = p + [self.impl.ty_name]
        elif self.impl is not None and self.impl.trait_name:
            p = p + [self.impl.trait_name]
        elif getattr(self, "trait", None) is not None:
            p = p + [self.trait.name]
        return "::".join(p + [self.name if isinstance(self.name, str) else repr(self.name)])

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.qual())


class Impl:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.ty = node.ty
        self.trait = node.trait
        self.generics = node.generics
        self.trait_name = None
        if node.trait is not None and node.trait.kind == "path":
            self.trait_name = node.trait.segs[-1][0]
        self.ty_name = None
        t = node.ty
        while t.kind == "tref":
            t = t.el
        if t.kind == "path":
            self.ty_name = t.segs[-1][0]
        self.fns = {}
        self.consts = {}
        self.types = {}
        for it in node.items:
            if not cfg_ok(getattr(it, "attrs", [])):
                continue
            if it.kind == "fn":
                d = Defn("fn", it.name, it, module)
                d.impl = self
                self.fns[it.name] = d
            elif it.kind == "const":
                d = Defn("const", it.name, it, module)
                d.impl = self
                self.consts[it.name] = d
            elif it.kind == "type":
                self.types[it.name] = it


class Program:
    def __init__(self, repo):
        self.repo = repo
        self.crates = {}
        self.impls = []
        self.files = {}
        self.problems = []
        self.load("zod_core", "core/src/lib.rs")
        self.load("zod_derive", "derive/src/lib.rs")
        self.load("zod", "src/lib.rs")

    def load(self, crate, rel):
        root = Module(self, crate, [], None)
        self.crates[crate] = root
        self.load_file(root, rel)

    def load_file(self, mod, rel):
        full = os.path.join(self.repo, rel)
        with open(full) as f:
            text = f.read()
        self.files[rel] = text
        try:
            items = parse_source(text)
        except (ParseError, LexError, IndexError, ValueError) as e:
            raise Unsupported("cannot parse %s: %s" % (rel, e))
        mod.file = rel
        self.add_items(mod, items, rel)

    def add_items(self, mod, items, rel, in_user=False):
        for it in items:
            if not cfg_ok(getattr(it, "attrs", [])):
                continue
            k = it.kind
            if k == "use":
                self.add_use(mod, it.tree, [])
            elif k == "mod":
                m = Module(self, mod.crate, mod.path + [it.name], mod)
                d = Defn("mod", it.name, it, mod)
                d.target = m
                mod.add(it.name, d)
                if it.items is not None:
                    m.file = rel
                    self.add_items(m, it.items, rel, in_user)
                else:
                    base = os.path.dirname(rel)
                    stem = os.path.basename(rel)
                    if stem not in ("lib.rs", "mod.rs"):
                        base = os.path.join(base, stem[:-3])
                    for cand in (os.path.join(base, it.name + ".rs"), os.path.join(base, it.name, "mod.rs")):
                        if os.path.exists(os.path.join(self.repo, cand)):
                            self.load_file(m, cand)
                            break
                    else:
                        raise Unsupported("module file of %s not found" % it.name)
            elif k in ("fn", "struct", "enum", "const", "type", "trait"):
                mod.add(it.name, Defn(k, it.name, it, mod))
                if k == "trait":
                    d = mod.items[it.name][-1]
                    d.fns = {}
                    d.consts = {}
                    for x in it.items:
                        if not cfg_ok(getattr(x, "attrs", [])):
                            continue
                        if x.kind == "fn":
                            fd = Defn("fn", x.name, x, mod)
                            fd.trait = d
                            d.fns[x.name] = fd
                        elif x.kind == "const":
                            d.consts[x.name] = Defn("const", x.name, x, mod)
                if k == "fn":
                    # items nested in fn bodies are handled when executed
                    pass
            elif k == "impl":
                self.impls.append(Impl(it, mod))
            elif k == "macro_rules":
                mod.macros[it.name] = it
            elif k == "macroitem":
                name = it.path.segs[-1][0]
                mac = self.find_macro(mod, name)
                if mac is not None and len(it.path.segs) == 1:
                    toks = expand_macro(mac, it.toks)
                    self.add_items(mod, P(toks).file(), rel, in_user)
                elif name == "pin_project" and not in_user:
                    # pin_project_lite: the struct itself; `project` gives access to its fields
                    self.add_items(mod, P(list(it.toks)).file(), rel, in_user)
                else:
                    mod.add("macro!", Defn("macroitem", name, it, mod))
            elif k == "spliceitems":
                mod.add("splice!", Defn("spliceitems", "splice", it, mod))

    def find_macro(self, mod, name):
        m = mod
        while m is not None:
            if name in m.macros:
                return m.macros[name]
            m = m.parent
        return None

    def add_use(self, mod, tree, prefix):
        if tree.kind == "usegroup":
            for s in tree.subs:
                self.add_use(mod, s, prefix + tree.prefix)
        elif tree.kind == "useglob":
            mod.uses.append((None, prefix + tree.prefix))
        else:
            path = prefix + tree.path
            if path[-1] == "self":
                path = path[:-1]
                alias = tree.alias if tree.alias != "self" else path[-1]
                mod.uses.append((alias, path))
            else:
                mod.uses.append((tree.alias, path))

    # -- resolution ------------------------------------------------------------
    def lookup(self, mod, name, seen=None):
        """Resolve a single name in a module: Defn list, or ('ext', segs)."""
        seen = seen or set()
        key = (id(mod), name)
        if key in seen:
            return None
        seen.add(key)
        if name in mod.items:
            return mod.items[name]
        for alias, segs in mod.uses:
            if alias == name:
                r = self.resolve(mod, segs, seen)
                return r
        for alias, segs in mod.uses:
            if alias is None:
                r = self.resolve(mod, segs, seen)
                if isinstance(r, list) and r and r[0].kind == "mod":
                    s = self.lookup(r[0].target, name, seen)
                    if isinstance(s, list):
                        return s
                elif isinstance(r, Module):
                    s = self.lookup(r, name, seen)
                    if isinstance(s, list):
                        return s
        return None

    def resolve(self, mod, segs, seen=None, glob=False):
        """Resolve a path (list of str): list of Defn | Module | ('ext', 'a::b')."""
        segs = list(segs)
        if not segs:
            return mod
        cur = None
        s0 = segs[0]
        if s0 == "crate":
            cur = self.crates[mod.crate] if mod.crate in self.crates else mod
            segs = segs[1:]
        elif s0 == "self":
            cur = mod
            segs = segs[1:]
        elif s0 == "super":
            cur = mod
            while segs and segs[0] == "super":
                cur = cur.parent
                segs = segs[1:]
        elif s0 in self.crates and (glob or self.lookup(mod, s0, set(seen) if seen else None) is None):
            cur = self.crates[s0]
            segs = segs[1:]
        if cur is None:
            r = self.lookup(mod, s0, seen) if not glob else None
            if r is None:
                # fn-local or enclosing modules are not searched (Rust does not either)
                return ("ext", "::".join(map(str, segs)))
            if isinstance(r, tuple):
                return ("ext", "::".join([r[1]] + [str(x) for x in segs[1:]]))
            if isinstance(r, Module):
                cur = r
                segs = segs[1:]
            else:
                if len(segs) == 1:
                    return r
                d = r[0]
                if d.kind == "mod":
                    cur = d.target
                    segs = segs[1:]
                else:
                    return ("assoc", r, segs[1:])
        while segs:
            r = self.lookup(cur, segs[0])
            if r is None:
                return ("ext", "::".join([cur.crate] + cur.path + [str(x) for x in segs]))
            if isinstance(r, tuple):
                if r[0] == "ext":
                    return ("ext", "::".join([r[1]] + [str(x) for x in segs[1:]]))
                return r
            if isinstance(r, Module):
                cur = r
                segs = segs[1:]
                continue
            if len(segs) == 1:
                return r
            d = [x for x in r if x.kind == "mod"]
            if d:
                cur = d[0].target
                segs = segs[1:]
                continue
            return ("assoc", r, segs[1:])
        return cur

    def find_fns(self, qual_suffix):
        """All functions whose qualified name ends with the given suffix."""
        out = []

        def walk(m):
            for ds in m.items.values():
                for d in ds:
                    if d.kind == "fn" and (d.qual() == qual_suffix or d.qual().endswith("::" + qual_suffix)):
                        out.append(d)
                    elif d.kind == "mod":
                        walk(d.target)
        for c in self.crates.values():
            walk(c)
        for im in self.impls:
            for d in im.fns.values():
                if d.qual() == qual_suffix or d.qual().endswith("::" + qual_suffix):
                    out.append(d)
        return out

    def all_fns(self):
        out = []

        def walk(m):
            for ds in m.items.values():
                for d in ds:
                    if d.kind == "fn":
                        out.append(d)
                    elif d.kind == "mod":
                        walk(d.target)
                    elif d.kind == "trait":
                        out.extend(x for x in d.fns.values() if x.node.body is not None)
        for c in self.crates.values():
            walk(c)
        for im in self.impls:
            out.extend(im.fns.values())
        return out


# --------------------------------------------------------------------------------------
# macro_rules

class MacroFail(Exception):
    pass


def expand_macro(mac, toks):
    rules = []
    ts = mac.toks
    i = 0
    while i < len(ts):
        pat = ts[i]
        assert ts[i + 1].v == "=>"
        body = ts[i + 2]
        rules.append((pat.v, body.v))
        i += 3
        if i < len(ts) and ts[i].k == "p" and ts[i].v == ";":
            i += 1
    for pat, body in rules:
        try:
            b = {}
            rest = _mmatch(pat, list(toks), b)
            if rest:
                raise MacroFail()
        except (MacroFail, ParseError):
            continue
        return _msubst(body, b)
    raise Unsupported("no macro rule of %s matches" % mac.name)


def _tok_eq(a, b):
    return a.k == b.k and a.v == b.v


def _mmatch(pat, toks, b):
    i = 0
    while i < len(pat):
        p = pat[i]
        if p.k == "p" and p.v == "$" and i + 1 < len(pat):
            q = pat[i + 1]
            if q.k == "id":
                # $name:frag
                name = q.v
                frag = pat[i + 3].v
                got, toks = _frag(frag, toks)
                b[name] = got
                i += 4
                continue
            if q.k == "g" and q.d == "(":
                sub = q.v
                j = i + 2
                sep = None
                if not (pat[j].k == "p" and pat[j].v in ("*", "+", "?")):
                    sep = pat[j]
                    j += 1
                op = pat[j].v
                i = j + 1
                reps = []
                follow = pat[i] if i < len(pat) else None
                while True:
                    if not toks:
                        break
                    if reps and sep is not None:
                        if not _tok_eq(toks[0], sep):
                            break
                        save = toks
                        toks = toks[1:]
                    else:
                        save = toks
                    if not reps and follow is not None and not toks:
                        break
                    bb = {}
                    try:
                        rest = _mmatch(sub, list(toks), bb)
                    except (MacroFail, ParseError):
                        toks = save
                        break
                    if len(rest) == len(toks) and not sub:
                        break
                    toks = rest
                    reps.append(bb)
                    if op == "?":
                        break
                names = _mnames(sub)
                for nme in names:
                    b[nme] = ("rep", [r[nme] for r in reps])
                if op == "+" and not reps:
                    raise MacroFail()
                continue
        if not toks:
            raise MacroFail()
        t = toks[0]
        if p.k == "g":
            if t.k != "g" or t.d != p.d:
                raise MacroFail()
            rest = _mmatch(p.v, list(t.v), b)
            if rest:
                raise MacroFail()
            toks = toks[1:]
        else:
            if not _tok_eq(p, t):
                raise MacroFail()
            toks = toks[1:]
        i += 1
    return toks


def _mnames(sub):
    out = []
    for i, t in enumerate(sub):
        if t.k == "p" and t.v == "$" and i + 1 < len(sub) and sub[i + 1].k == "id":
            out.append(sub[i + 1].v)
        if t.k == "g":
            out.extend(_mnames(t.v))
    return out


def _frag(frag, toks):
    if not toks:
        raise MacroFail()
    if frag == "tt":
        return [toks[0]], toks[1:]
    if frag == "ident":
        if toks[0].k != "id":
            raise MacroFail()
        return [toks[0]], toks[1:]
    if frag == "literal":
        if toks[0].k in ("str", "int", "char", "float", "bstr") or (toks[0].k == "id" and toks[0].v in ("true", "false")):
            return [toks[0]], toks[1:]
        raise MacroFail()
    if frag == "lifetime":
        if toks[0].k != "life":
            raise MacroFail()
        return [toks[0]], toks[1:]
    p = P(list(toks))
    if frag == "ty":
        p.type()
    elif frag == "expr":
        p.expr()
    elif frag == "path":
        p.path(expr=False)
    elif frag in ("pat", "pat_param"):
        p.pattern()
    elif frag == "block":
        p.group("{")
    elif frag == "item":
        p.item()
    else:
        raise MacroFail()
    used = p.t[:p.i]
    rest = p.t[p.i:]
    if frag in ("ty", "expr"):
        g = Tok("g", used, "")
        return used if frag == "ty" else [g], rest
    return used, rest


def _msubst(body, b):
    out = []
    i = 0
    while i < len(body):
        t = body[i]
        if t.k == "p" and t.v == "$" and i + 1 < len(body):
            q = body[i + 1]
            if q.k == "id":
                v = b.get(q.v)
                if v is None:
                    if q.v == "crate":
                        out.append(Tok("id", "crate"))
                        i += 2
                        continue
                    raise Unsupported("macro variable $%s" % q.v)
                if isinstance(v, tuple):
                    raise Unsupported("macro variable $%s still repeating" % q.v)
                out.extend(v)
                i += 2
                continue
            if q.k == "g" and q.d == "(":
                j = i + 2
                sep = None
                if not (body[j].k == "p" and body[j].v in ("*", "+", "?")):
                    sep = body[j]
                    j += 1
                names = [n for n in _mnames(q.v) if isinstance(b.get(n), tuple)]
                if not names:
                    raise Unsupported("macro repetition without variable")
                cnt = len(b[names[0]][1])
                for r in range(cnt):
                    bb = dict(b)
                    for nme in names:
                        bb[nme] = b[nme][1][r]
                    if r and sep is not None:
                        out.append(sep)
                    out.extend(_msubst(q.v, bb))
                i = j + 1
                continue
        if t.k == "g":
            out.append(Tok("g", _msubst(t.v, b), t.d, t.line))
        else:
            out.append(t)
        i += 1
    return out
