"""A symbolic executor for the subset of TypeScript the shipped websocket client is written in. The syntax tree comes from
the TypeScript compiler itself (battery/ws/ast.mjs); types are dropped, everything else is executed. A construct which is not
modelled raises Unsupported."""
import json
import os
import subprocess
import time
import z3
from core import Unsupported

HERE = os.path.dirname(os.path.abspath(__file__))
AST = os.path.join(os.path.dirname(HERE), "battery", "ws", "ast.mjs")


class Node:
    """A syntax node; never copied."""
    count = 0

    def __init__(self, d):
        self.__dict__.update({"text": None, "operator": None})
        self.d = d
        for k, v in d.items():
            if isinstance(v, dict):
                v = Node(v)
            elif isinstance(v, list):
                v = [Node(x) if isinstance(x, dict) else x for x in v]
            self.__dict__[k] = v
        self.free = None
        self.d = None

    def get(self, k):
        return self.__dict__.get(k)

    def __repr__(self):
        return "%s@%s" % (self.k, self.line)


def parse(path):
    p = subprocess.run(["node", AST, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    if p.returncode != 0:
        raise Unsupported("the TypeScript parser failed: " + p.stderr.decode("utf8", "replace")[-300:])
    d = json.loads(p.stdout.decode())
    if d["diags"]:
        raise Unsupported("the client does not parse: " + "; ".join(d["diags"])[:300])
    return [Node(s) for s in d["statements"]]


# ------------------------------------------------------------------------------------------------ values
class Undef:
    def __repr__(self):
        return "undefined"


UNDEF = Undef()


class Op:
    """An opaque value: equal when its construction is equal."""

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args

    def __repr__(self):
        return "%s(%s)" % (self.kind, ", ".join(map(repr, self.args))) if self.args else self.kind


class AnyNum:
    """Some number nothing is known of."""

    def __repr__(self):
        return "any"


ANY = AnyNum()


class Sym:
    """A number known as a term."""

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return str(z3.simplify(self.e))


class Star:
    """One or more elements like this one."""

    def __init__(self, v):
        self.v = v


class Rest:
    """The elements of an opaque collection, in order."""

    def __init__(self, v):
        self.v = v


class JSObj:
    cls = "object"

    def __init__(self, props=None):
        self.props = dict(props or {})
        self.getters = {}


class Arr(JSObj):
    cls = "array"

    def __init__(self, items=()):
        JSObj.__init__(self)
        self.items = list(items)

    def push(self, v):
        last = self.items[-1] if self.items else None
        if like(v) and isinstance(last, Star) and last.v is v:
            return
        if like(v) and last is v:
            self.items[-1] = Star(v)
            return
        self.items.append(Star(v) if like(v) else v)


def like(v):
    """Values which stand for any number of different ones."""
    return isinstance(v, Op) and v.kind.startswith("other ")


class Length:
    """The length of a collection."""

    def __init__(self, of):
        self.of = of


class SetObj(JSObj):
    """A set: known elements, and others ("none", "some" or "maybe")."""
    cls = "set"

    def __init__(self):
        JSObj.__init__(self)
        self.known = []
        self.others = {}                # name -> (value, "some"|"maybe")


class Symb(JSObj):
    """A unique key; `stands` once it is the key of an element which stands for others."""
    cls = "symbol"
    stands = None


class MapObj(JSObj):
    cls = "map"

    def __init__(self):
        JSObj.__init__(self)
        self.known = []                 # [key, value]
        self.others = {}                # name -> (value, "some"|"maybe")


class Several:
    """Collections whose lengths are added up."""

    def __init__(self, of):
        self.of = of


class Index:
    """The position of an element."""

    def __init__(self, arr, v):
        self.arr, self.v = arr, v


class Fn(JSObj):
    cls = "function"

    def __init__(self, node, env, this=None, name=""):
        JSObj.__init__(self)
        self.node, self.env, self.this, self.name = node, env, this, name


class Nat(JSObj):
    """A function of the environment; `label` tells it from others, `refs` are what it holds."""
    cls = "function"

    def __init__(self, label, f, refs=()):
        JSObj.__init__(self)
        self.label, self.f, self.refs = label, f, tuple(refs)


class Promise(JSObj):
    cls = "promise"

    def __init__(self):
        JSObj.__init__(self)
        self.state, self.value, self.reactions, self.locked = "pending", UNDEF, [], False


class Cell:
    __slots__ = ("v", "kind")

    def __init__(self, v, kind):
        self.v, self.kind = v, kind


TDZ = object()


class Env:
    def __init__(self, parent=None):
        self.vars, self.parent = {}, parent

    def find(self, name):
        e = self
        while e is not None:
            c = e.vars.get(name)
            if c is not None:
                return c
            e = e.parent
        return None


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Throw(Exception):
    def __init__(self, v):
        self.v = v


class Prune(Exception):
    """The rest of this path is covered by another one."""


class Diverges(Exception):
    pass


FUNCTIONS = ("FunctionDeclaration", "FunctionExpression", "ArrowFunction", "MethodDeclaration", "GetAccessor", "SetAccessor", "Constructor")


def free_names(node):
    """The names a function mentions."""
    if node.free is None:
        out = set()

        def walk(n):
            if n.k == "Identifier":
                out.add(n.text)
            for k, v in n.__dict__.items():
                if isinstance(v, Node):
                    if k == "name" and n.k in ("PropertyAccessExpression", "PropertyAssignment", "MethodDeclaration", "GetAccessor") and v.k == "Identifier":
                        continue
                    if k == "propertyName" and v.k == "Identifier":
                        continue
                    walk(v)
                elif isinstance(v, list):
                    for x in v:
                        if isinstance(x, Node):
                            walk(x)
        walk(node)
        node.free = frozenset(out)
    return node.free


def has_await(node):
    def walk(n):
        if n.k == "AwaitExpression":
            return True
        for v in n.__dict__.values():
            if isinstance(v, Node):
                if v.k not in FUNCTIONS and walk(v):
                    return True
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, Node) and x.k not in FUNCTIONS and walk(x):
                        return True
        return False
    if node.get("_await") is None:
        node.__dict__["_await"] = walk(node)
    return node.__dict__["_await"]


CONNECTING, OPEN, CLOSING, CLOSED = 0, 1, 2, 3


class Sock(JSObj):
    cls = "socket"

    def __init__(self, url):
        JSObj.__init__(self)
        self.url = url
        self.state = CONNECTING
        self.by_client = False
        self.was_open = False
        self.listeners = []
        self.sent = []
        self.last = True


class Timer(JSObj):
    cls = "timer"

    def __init__(self, f):
        JSObj.__init__(self)
        self.f, self.live = f, True


class Machine:
    """One execution: `decisions` fixes the first choices, later ones take the first alternative and are recorded."""

    def __init__(self, stmts, decisions=()):
        self.stmts = stmts
        self.decisions = list(decisions)
        self.at = 0
        self.taken = []                 # (choice, number of alternatives, label)
        self.free_choices = 0
        self.tasks = []                 # microtasks
        self.trace = []
        self.sockets, self.timers = [], []
        self.facts = {}
        self.solver = z3.Solver()
        self.queries = 0
        self.solver_s = 0.0
        self.fresh = 0
        self.fuel = 200000
        self.stub = {}
        self.on_send = None
        self.on_close = None
        self.env = Env()
        self.builtins()

    # ---- choices
    def choose(self, n, label):
        if n == 1:
            return 0
        if self.at < len(self.decisions):
            c = self.decisions[self.at]
        else:
            c = 0
        self.at += 1
        self.taken.append((c, n, label))
        return c

    def sat(self, *conds):
        self.queries += 1
        self.solver.push()
        for c in conds:
            self.solver.add(c)
        t = time.time()
        r = self.solver.check()
        self.solver_s += time.time() - t
        self.solver.pop()
        if r == z3.unknown:
            raise Unsupported("the solver gives no answer")
        return r == z3.sat

    def branch(self, cond):
        """The truth of a term; both when both are possible."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        yes, no = self.sat(cond), self.sat(z3.Not(cond))
        if yes and no:
            b = self.choose(2, str(cond)) == 0
        else:
            b = yes
        self.solver.add(cond if b else z3.Not(cond))
        return b

    def number(self, name):
        self.fresh += 1
        return z3.Int("%s%d" % (name, self.fresh))

    # ---- truth and comparison
    def unknown(self, key):
        """A condition nothing is known of: either, but always the same on one path."""
        if key not in self.facts:
            self.free_choices += 1
            self.facts[key] = self.choose(2, key) == 0
        return self.facts[key]

    def nonempty(self, of):
        if isinstance(of, Arr):
            if any(not isinstance(x, Rest) for x in of.items):
                return True
            if of.items:
                return self.unknown("nonempty %r" % [x.v for x in of.items])
            return False
        if isinstance(of, Several):
            return any(self.nonempty(x) for x in of.of)
        if of.known:
            return True
        for k, (v, how) in list(of.others.items()):
            if how == "some":
                return True
            if self.choose(2, "are there other subscriptions") == 0:
                of.others[k] = (v, "some")
                return True
            del of.others[k]
        return False

    def truth(self, v):
        if v is UNDEF or v is None or v is False or v == 0 and isinstance(v, (int, float)) or v == "" and isinstance(v, str):
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, Length):
            return self.nonempty(v.of)
        if isinstance(v, Sym):
            return self.branch(v.e != 0)
        if isinstance(v, (AnyNum,)):
            self.free_choices += 1
            return self.choose(2, "number") == 0
        if isinstance(v, Op):
            if v.kind.startswith("other ") or v.kind in ("message", "function", "truthy"):
                return True
            return self.unknown("truth of %r" % v)
        return True

    def typeof(self, v):
        if v is UNDEF:
            return "undefined"
        if v is None:
            return "object"
        if isinstance(v, bool):
            return "boolean"
        if isinstance(v, (int, float, Sym, AnyNum, Length)):
            return "number"
        if isinstance(v, str):
            return "string"
        if isinstance(v, (Fn, Nat)):
            return "function"
        if isinstance(v, JSObj):
            return "object"
        if isinstance(v, Op) and v.kind in ("message", "json text", "other message", "string"):
            return "string"
        if isinstance(v, Op) and "subscri" in v.kind or isinstance(v, Op) and v.kind == "function":
            return "function"
        raise Unsupported("typeof %r" % v)

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float, Sym, AnyNum, Length)):
            return v
        if isinstance(v, Length):
            return v
        raise Unsupported("a number of %r" % (v,))

    def length_number(self, v):
        """A length as a plain number, when it is one."""
        if isinstance(v, Length):
            of = v.of
            if isinstance(of, Arr) and not any(isinstance(x, (Star, Rest)) for x in of.items):
                return len(of.items)
            if isinstance(of, (SetObj, MapObj)) and not of.others:
                return len(of.known)
        return v

    def arith(self, op, a, b):
        a, b = self.length_number(self.num(a)), self.length_number(self.num(b))
        if isinstance(a, Length) or isinstance(b, Length):
            if op == "+" and all(isinstance(x, Length) or isinstance(x, int) and x >= 0 for x in (a, b)):
                return Length(Several([x.of if isinstance(x, Length) else Arr([0] * x) for x in (a, b)]))
            return ANY
        if isinstance(a, AnyNum) or isinstance(b, AnyNum):
            return ANY
        if isinstance(a, Sym) or isinstance(b, Sym):
            x = a.e if isinstance(a, Sym) else z3.IntVal(a) if isinstance(a, int) else None
            y = b.e if isinstance(b, Sym) else z3.IntVal(b) if isinstance(b, int) else None
            if x is None or y is None:
                return ANY
            if op == "+":
                return Sym(x + y)
            if op == "-":
                return Sym(x - y)
            if op == "*" and (z3.is_int_value(x) or z3.is_int_value(y)):
                return Sym(x * y)
            return ANY
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "%":
            return int(a - b * int(a / b)) if b and isinstance(a, int) and isinstance(b, int) else ANY
        if op == "/":
            return (a // b if isinstance(a, int) and isinstance(b, int) and a % b == 0 else a / b) if b else ANY
        if op == "**":
            return a ** b
        if op in ("|", "&", "^", "<<", ">>", ">>>") and isinstance(a, int) and isinstance(b, int) and 0 <= a < 2 ** 31 and 0 <= b < 31:
            return {"|": a | b, "&": a & b, "^": a ^ b, "<<": a << b, ">>": a >> b, ">>>": a >> b}[op]
        raise Unsupported("operator " + op)

    def compare(self, op, a, b):
        a, b = self.length_number(self.num(a)), self.length_number(self.num(b))
        if isinstance(a, Length) or isinstance(b, Length):
            if isinstance(a, Length) and b == 0 and isinstance(b, int) or isinstance(b, Length) and a == 0 and isinstance(a, int):
                if isinstance(b, Length):
                    op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
                    a, b = b, a
                if op == ">":
                    return self.nonempty(a.of)
                if op == "<":
                    return False
                if op == ">=":
                    return True
                return not self.nonempty(a.of)
            if isinstance(a, Length) and isinstance(b, int) and op in (">=", "<") and b == 1:
                r = self.nonempty(a.of)
                return r if op == ">=" else not r
            if isinstance(b, Length) and isinstance(a, int):
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
                a, b = b, a
            if isinstance(a, Length) and isinstance(b, int):
                # at least so many; the others may be any number
                of = a.of
                least = len(of.known) + sum(1 for _, h in of.others.values() if h == "some") if isinstance(of, (SetObj, MapObj)) else len(getattr(of, "items", []))
                if isinstance(of, (SetObj, MapObj, Arr)) and not any(isinstance(x, Rest) for x in getattr(of, "items", [])):
                    if op in (">", ">="):
                        return True if least > b or op == ">=" and least == b else self.choose(2, "length") == 0
                    return False if least > b or op == "<" and least == b else self.choose(2, "length") == 0
            raise Unsupported("comparing lengths")
        if isinstance(a, AnyNum) or isinstance(b, AnyNum):
            self.free_choices += 1
            return self.choose(2, "any " + op) == 0
        if isinstance(a, Sym) or isinstance(b, Sym):
            x = a.e if isinstance(a, Sym) else z3.IntVal(a)
            y = b.e if isinstance(b, Sym) else z3.IntVal(b)
            return self.branch({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op])
        return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]

    def same(self, a, b, loose=False):
        """a === b, or a == b"""
        a, b = self.length_number(a), self.length_number(b)
        if isinstance(a, Length) or isinstance(b, Length):
            if isinstance(b, Length):
                a, b = b, a
            if b == 0 and not isinstance(b, bool):
                return not self.nonempty(a.of)
            if b is UNDEF or b is None:
                return False
            raise Unsupported("comparing lengths")
        if loose and (a is None or a is UNDEF):
            if b is None or b is UNDEF:
                return True
        num = (int, float, Sym, AnyNum)
        isnum = lambda v: isinstance(v, num) and not isinstance(v, bool)
        if isnum(a) and isnum(b):
            if isinstance(a, AnyNum) or isinstance(b, AnyNum):
                self.free_choices += 1
                return self.choose(2, "any ==") == 0
            if isinstance(a, Sym) or isinstance(b, Sym):
                x = a.e if isinstance(a, Sym) else z3.IntVal(a)
                y = b.e if isinstance(b, Sym) else z3.IntVal(b)
                return self.branch(x == y)
            return a == b
        if a is b:
            return True
        if isinstance(a, Op) or isinstance(b, Op):
            if isinstance(a, JSObj) or isinstance(b, JSObj):
                return False
            for x, y in ((a, b), (b, a)):
                if (y is UNDEF or y is None) and isinstance(x, Op) and (x.kind in ("message", "function", "truthy", "json text", "string") or x.kind.startswith("other ") or "subscri" in x.kind):
                    return False
            if isinstance(a, Op) and isinstance(b, Op):
                if repr(a) == repr(b) and not like(a):
                    return True
                if {a.kind, b.kind} <= {"message", "other message"} or {a.kind, b.kind} <= {"subscription", "other subscription"}:
                    return a.kind == b.kind and not like(a)
            return self.unknown("%r == %r" % (a, b))
        if isinstance(a, str) and isinstance(b, str) or isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if loose and (isinstance(a, (bool, str)) and isnum(b) or isinstance(b, (bool, str)) and isnum(a)):
            raise Unsupported("loose comparison")
        return False

    # ---- objects
    def sock_send(self, s, text):
        if self.on_send:
            self.on_send(s, text)
        if s.state == CONNECTING:
            raise Throw(Op("truthy", "InvalidStateError"))
        return UNDEF

    def sock_close(self, s):
        if s.state in (CLOSING, CLOSED):
            return UNDEF
        if self.on_close:
            self.on_close(s)
        s.was_open = s.state == OPEN
        s.by_client = True
        s.state = CLOSING
        return UNDEF

    def make_socket(self, url):
        for s in self.sockets:
            s.last = False
        s = Sock(url)
        self.sockets.append(s)
        return s

    def fire(self, s, kind, event):
        hs = []
        h = s.props.get("on" + kind)
        if isinstance(h, (Fn, Nat)):
            hs.append(h)
        hs += [f for t, f in s.listeners if t == kind]
        for h in hs:
            self.call(h, s, [event])

    def promise_then(self, p, f, r, d=None, label=None):
        d = d or Promise()
        p.reactions.append((f, r, d))
        if p.state != "pending":
            self.schedule(p)
        return d

    def schedule(self, p):
        rs, p.reactions = p.reactions, []
        for f, r, d in rs:
            self.tasks.append((p, f, r, d))

    def resolve(self, p, v):
        if p.locked:
            return
        p.locked = True
        if isinstance(v, Promise):
            v.reactions.append((Nat("adopt", lambda m, this, a: m.settle(p, "fulfilled", a[0]), (p,)),
                                Nat("adopt error", lambda m, this, a: m.settle(p, "rejected", a[0]), (p,)), Promise()))
            if v.state != "pending":
                self.schedule(v)
            return
        if isinstance(v, JSObj) and "then" in v.props:
            raise Unsupported("a thenable")
        self.settle(p, "fulfilled", v)

    def reject(self, p, v):
        if p.locked:
            return
        p.locked = True
        self.settle(p, "rejected", v)

    def settle(self, p, state, v):
        p.state, p.value, p.locked = state, v, True
        self.schedule(p)
        return UNDEF

    def drain(self):
        n = 0
        while self.tasks:
            n += 1
            if n > 500:
                raise Diverges()
            p, f, r, d = self.tasks.pop(0)
            if p is None:
                self.call(f, UNDEF, [])
                continue
            h = f if p.state == "fulfilled" else r
            if h is None or h is UNDEF:
                if p.state == "fulfilled":
                    self.resolve(d, p.value)
                else:
                    self.reject(d, p.value)
                continue
            try:
                v = self.call(h, UNDEF, [p.value])
            except Throw as t:
                self.reject(d, t.v)
                continue
            self.resolve(d, v)

    def iterate(self, v):
        """The elements of something which can be iterated."""
        if isinstance(v, Arr):
            return list(v.items)
        if isinstance(v, SetObj):
            out = list(v.known)
            for k, (x, how) in list(v.others.items()):
                if how == "maybe":
                    if self.choose(2, "are there other subscriptions") == 0:
                        v.others[k] = (x, "some")
                    else:
                        del v.others[k]
                        continue
                out.append(Star(x))
            return out
        if isinstance(v, MapObj):
            out = [Arr([k, x]) for k, x in v.known]
            for k, (x, how) in list(v.others.items()):
                if how == "maybe" and self.choose(2, "are there others") == 1:
                    del v.others[k]
                    continue
                v.others[k] = (x, "some")
                out.append(Star(Arr([Op("other key " + k), x])))
            return out
        if isinstance(v, Op) and v.kind == "args":
            return [Rest(v)]
        raise Unsupported("iterating %r" % (v,))

    def each(self, items, step):
        """Runs step for every element; one which stands for several must leave the state as it is from the second time on."""
        for x in items:
            if isinstance(x, Star):
                step(x.v)
                before = self.state_key()
                n = len(self.trace)
                step(x.v)
                del self.trace[n:]
                if self.state_key() != before:
                    raise Unsupported("a loop whose rounds build on each other")
            elif isinstance(x, Rest):
                raise Unsupported("a loop over opaque elements")
            else:
                step(x)

    def state_key(self):
        return ""

    def get_prop(self, o, name, node=None):
        if o is UNDEF or o is None:
            raise Throw(Op("truthy", "TypeError: %s of %r" % (name, o)))
        if isinstance(o, Sock):
            if name == "readyState":
                return o.state
            if name in ("CONNECTING", "OPEN", "CLOSING", "CLOSED"):
                return {"CONNECTING": 0, "OPEN": 1, "CLOSING": 2, "CLOSED": 3}[name]
            if name == "send":
                return Nat("socket.send", lambda m, this, a: m.sock_send(o, a[0]), (o,))
            if name == "close":
                return Nat("socket.close", lambda m, this, a: m.sock_close(o), (o,))
            if name == "addEventListener":
                return Nat("addEventListener", lambda m, this, a: self.listen(o, a), (o,))
            if name == "removeEventListener":
                return Nat("removeEventListener", lambda m, this, a: self.unlisten(o, a), (o,))
            if name in o.props:
                return o.props[name]
            if name.startswith("on"):
                return None
            if name == "url":
                return o.url
            return UNDEF
        if isinstance(o, (Arr, SetObj, MapObj, Promise)) or isinstance(o, (Fn, Nat)):
            if name in o.props:
                return o.props[name]
            if isinstance(o, Arr) and name == "length":
                return self.length_number(Length(o))
            if isinstance(o, (SetObj, MapObj)) and name == "size":
                return self.length_number(Length(o))
            if isinstance(o, Nat) and o.label.startswith("class "):
                return UNDEF
            return Nat("method " + name, lambda m, this, a: m.method(o, name, a), (o,))
        if isinstance(o, JSObj):
            if name in o.getters:
                return self.call(o.getters[name], o, [])
            if name in o.props:
                return o.props[name]
            if name in ("hasOwnProperty",):
                return Nat("hasOwnProperty", lambda m, this, a: a[0] in o.props, (o,))
            return UNDEF
        if isinstance(o, str):
            if name == "length":
                return len(o)
            raise Unsupported("string." + name)
        if isinstance(o, Op):
            if o.kind == "truthy" or o.kind == "event":
                return Op("field", o, name)
            if name == "length" and o.kind == "args":
                return Length(Arr([Rest(o)]))
            return Op("field", o, name)
        raise Unsupported("property %s of %r" % (name, o))

    def listen(self, s, a):
        s.listeners.append((a[0], a[1]))
        return UNDEF

    def unlisten(self, s, a):
        s.listeners = [(t, f) for t, f in s.listeners if t != a[0] or f is not a[1]]
        return UNDEF

    def set_prop(self, o, name, v):
        if isinstance(o, Arr) and name == "length":
            if v == 0:
                o.items = []
                return
            raise Unsupported("array.length = ")
        if isinstance(o, JSObj):
            o.props[name] = v
            return
        if o is UNDEF or o is None:
            raise Throw(Op("truthy", "TypeError"))
        raise Unsupported("setting %s of %r" % (name, o))

    def method(self, o, name, a):
        arg = lambda i: a[i] if i < len(a) else UNDEF
        if isinstance(o, (Fn, Nat)):
            if name == "call":
                return self.call(o, arg(0), a[1:])
            if name == "apply":
                return self.call(o, arg(0), self.iterate(arg(1)) if arg(1) is not UNDEF else [])
            if name == "bind":
                return Nat("bound", lambda m, this, b: m.call(o, arg(0), list(a[1:]) + list(b)), (o,) + tuple(a))
        if isinstance(o, Promise):
            if name == "then":
                return self.promise_then(o, arg(0), arg(1))
            if name == "catch":
                return self.promise_then(o, UNDEF, arg(0))
            if name == "finally":
                f = arg(0)
                if f is UNDEF:
                    return self.promise_then(o, UNDEF, UNDEF)

                def after(ok):
                    def run(m, this, b):
                        r = m.call(f, UNDEF, [])
                        q = Promise()
                        m.resolve(q, r)
                        v = b[0]
                        if ok:
                            return m.promise_then(q, Nat("value", lambda m, this, c: v, (v,)), UNDEF)

                        def rethrow(m, this, c):
                            raise Throw(v)
                        return m.promise_then(q, Nat("throw", rethrow, (v,)), UNDEF)
                    return run
                return self.promise_then(o, Nat("finally", after(True), (f,)), Nat("finally error", after(False), (f,)))
        if isinstance(o, SetObj):
            if name == "add":
                v = arg(0)
                if like(v):
                    o.others[v.kind] = (v, "some")
                elif not any(x is v for x in o.known):
                    o.known.append(v)
                return o
            if name == "delete":
                v = arg(0)
                if like(v):
                    if v.kind in o.others:
                        o.others[v.kind] = (v, "maybe")
                        return self.choose(2, "was it there") == 0
                    return False
                was = any(x is v for x in o.known)
                o.known = [x for x in o.known if x is not v]
                return was
            if name == "has":
                v = arg(0)
                if like(v):
                    return v.kind in o.others and self.choose(2, "is it there") == 0
                return any(x is v for x in o.known)
            if name == "clear":
                o.known, o.others = [], {}
                return UNDEF
            if name == "forEach":
                # elements added meanwhile are visited too, removed ones are not
                self.each_set(o, lambda v: self.call(arg(0), UNDEF, [v, v, o]))
                return UNDEF
            if name in ("values", "keys"):
                return Arr(self.iterate(o))
        if isinstance(o, Arr):
            return self.array_method(o, name, a, arg)
        if isinstance(o, MapObj):
            return self.map_method(o, name, a, arg)
        raise Unsupported("method " + name)

    def map_method(self, o, name, a, arg):
        k = arg(0)
        stands = k.stands if isinstance(k, Symb) else k.kind if like(k) else None
        if name == "forEach":
            before = len(o.known)

            def one(e):
                if like(e.items[1]) and e.items[1].kind in o.others or any(x[0] is e.items[0] for x in o.known):
                    self.call(arg(0), UNDEF, [e.items[1], e.items[0], o])
            self.each(self.iterate(o), one)
            if len(o.known) > before:
                raise Unsupported("a map which grows while it is iterated")
            return UNDEF
        if name in ("values", "keys", "entries"):
            out = Arr()
            for e in self.iterate(o):
                star, e = isinstance(e, Star), e.v if isinstance(e, Star) else e
                x = e if name == "entries" else e.items[1 if name == "values" else 0]
                out.items.append(Star(x) if star else x)
            return out
        if name == "clear":
            o.known, o.others = [], {}
            return UNDEF
        if not isinstance(k, (Symb, str)) and not (isinstance(k, Op) and "subscription" in k.kind):
            raise Unsupported("the key of a map")
        same = lambda x: x is k or isinstance(x, str) and x == k
        if name == "set":
            v = arg(1)
            if like(v):
                if isinstance(k, Symb):
                    k.stands = v.kind
                elif not like(k):
                    raise Unsupported("the key of a map")
                o.others[v.kind] = (v, "some")
            else:
                if stands:
                    raise Unsupported("the key of a map")
                for e in o.known:
                    if same(e[0]):
                        e[1] = v
                        return o
                o.known.append([k, v])
            return o
        if stands:
            there = stands in o.others
            if name == "delete" and there:
                o.others[stands] = (o.others[stands][0], "maybe")
            if name in ("delete", "has"):
                return there and self.choose(2, "is it there") == 0
            if name == "get":
                return o.others[stands][0] if there and self.choose(2, "is it there") == 0 else UNDEF
        hit = [e for e in o.known if same(e[0])]
        if name == "get":
            return hit[0][1] if hit else UNDEF
        if name == "has":
            return bool(hit)
        if name == "delete":
            o.known = [e for e in o.known if not same(e[0])]
            return bool(hit)
        raise Unsupported("Map." + name)

    def each_set(self, o, step):
        def guarded(v):
            if like(v):
                if v.kind in o.others:
                    step(v)
            elif any(x is v for x in o.known):
                step(v)
        n = len(o.known)
        self.each(self.iterate(o), guarded)
        if len(o.known) > n:
            raise Unsupported("a set which grows while it is iterated")

    def array_method(self, o, name, a, arg):
        stars = any(isinstance(x, (Star, Rest)) for x in o.items)
        if name == "push":
            for v in a:
                if isinstance(v, (Star, Rest)):
                    o.items.append(v)
                else:
                    o.push(v)
            return Length(o)
        if name == "forEach":
            if stars:
                self.each(list(o.items), lambda v: self.call(arg(0), UNDEF, [v, ANY, o]))
            else:
                i = 0
                while i < len(o.items):
                    self.call(arg(0), UNDEF, [o.items[i], i, o])
                    i += 1
            return UNDEF
        if name == "shift":
            if not o.items:
                return UNDEF
            x = o.items[0]
            if isinstance(x, Star):
                if self.choose(2, "is it the last one like it") == 0:
                    o.items.pop(0)
                return x.v
            if isinstance(x, Rest):
                raise Unsupported("shift of opaque elements")
            return o.items.pop(0)
        if name == "pop":
            if not o.items:
                return UNDEF
            x = o.items[-1]
            if isinstance(x, Star):
                if self.choose(2, "is it the last one like it") == 0:
                    o.items.pop()
                return x.v
            if isinstance(x, Rest):
                raise Unsupported("pop of opaque elements")
            return o.items.pop()
        if name == "unshift" and not any(like(v) for v in a):
            o.items = list(a) + o.items
            return Length(o)
        if name == "splice":
            if arg(0) == 0 and len(a) == 2 and a[1] == 1 and isinstance(a[1], int) and o.items:
                return Arr([self.array_method(o, "shift", [], lambda i: UNDEF)])
            if arg(0) == 0 and (len(a) == 1 or isinstance(a[1], Length) and a[1].of is o or a[1] == len(o.items) and not stars):
                r = Arr(o.items)
                o.items = list(a[2:])
                return r
            if stars:
                raise Unsupported("splice of part of an array")
            s, n = arg(0), arg(1)
            if not isinstance(s, int) or not isinstance(n, int) or s < 0:
                raise Unsupported("splice")
            r = Arr(o.items[s:s + n])
            o.items[s:s + n] = a[2:]
            return r
        if name in ("slice", "concat") and (not a or name == "slice" and arg(0) == 0 and len(a) == 1):
            return Arr(o.items)
        if name == "concat":
            r = Arr(o.items)
            for v in a:
                for x in (v.items if isinstance(v, Arr) else [v]):
                    if isinstance(x, (Star, Rest)):
                        r.items.append(x)
                    else:
                        r.push(x)
            return r
        if name == "slice" and not stars and all(isinstance(x, int) for x in a):
            return Arr(o.items[slice(*a)] if len(a) > 1 else o.items[a[0]:])
        if name == "map" and not stars:
            return Arr([self.call(arg(0), UNDEF, [x, i, o]) for i, x in enumerate(o.items)])
        if name == "reverse" and not stars:
            o.items.reverse()
            return o
        if name in ("includes", "indexOf") and not stars:
            for i, x in enumerate(o.items):
                if self.same(x, arg(0)):
                    return True if name == "includes" else i
            return False if name == "includes" else -1
        if name in ("values",):
            return Arr(o.items)
        if name == "filter":
            out = Arr()
            if any(isinstance(x, Rest) for x in o.items):
                raise Unsupported("filter of opaque elements")

            def keep(v, put):
                if self.truth(self.call(arg(0), UNDEF, [v, ANY if stars else len(out.items), o])):
                    put()
            for x in o.items:
                if isinstance(x, Star):
                    n = self.choose(3, "which of them stay")
                    r = self.truth(self.call(arg(0), UNDEF, [x.v, ANY, o]))
                    if r:
                        out.items.append(x)
                    if n:
                        raise Prune()
                else:
                    keep(x, lambda x=x: out.push(x))
            return out
        if name in ("some", "every", "find") and not stars:
            for x in o.items:
                r = self.truth(self.call(arg(0), UNDEF, [x]))
                if name == "some" and r:
                    return True
                if name == "every" and not r:
                    return False
                if name == "find" and r:
                    return x
            return {"some": False, "every": True, "find": UNDEF}[name]
        if name == "at" and not stars and isinstance(arg(0), int):
            i = arg(0)
            return o.items[i] if -len(o.items) <= i < len(o.items) else UNDEF
        raise Unsupported("array." + name)

    def call(self, f, this, args):
        self.fuel -= 1
        if self.fuel < 0:
            raise Diverges()
        if isinstance(f, Nat):
            return f.f(self, this, list(args))
        if isinstance(f, Fn):
            env = Env(f.env)
            n = f.node
            if n.k != "ArrowFunction":
                env.vars["this"] = Cell(this, "const")
                env.vars["arguments"] = Cell(Arr(args), "const")
            ps = n.get("parameters") or []
            for i, p in enumerate(ps):
                if p.get("rest"):
                    v = Arr(args[i:])
                else:
                    v = args[i] if i < len(args) else UNDEF
                    if v is UNDEF and p.get("initializer"):
                        v = self.expr(p.initializer, env)
                self.bind(p.name, v, env, "let")
            if n.get("generator"):
                raise Unsupported("generator function")
            isasync = "async" in (n.get("modifiers") or [])
            if n.body.k != "Block":
                if isasync:
                    p = Promise()
                    try:
                        if has_await(n.body):
                            raise Unsupported("await in an expression")
                        self.resolve(p, self.expr(n.body, env))
                    except Throw as t:
                        self.reject(p, t.v)
                    return p
                return self.expr(n.body, env)
            if isasync:
                p = Promise()
                g = self.body(n.body, env)
                self.step(g, p, None, None)
                return p
            try:
                for _ in self.body(n.body, env):
                    raise Unsupported("await outside of an async function")
            except Return as r:
                return r.v
            return UNDEF
        if isinstance(f, Op) and f.kind in ("subscription", "other subscription", "function"):
            self.trace.append(("call", f, [self.frozen(x) for x in args]))
            return UNDEF
        if f is UNDEF or f is None or isinstance(f, (str, int, bool)):
            raise Throw(Op("truthy", "TypeError: not a function"))
        raise Unsupported("calling %r" % (f,))

    def step(self, g, p, v, err):
        try:
            if err is not None:
                y = g.throw(err)
            else:
                y = g.send(v)
        except Return as r:
            return self.resolve(p, r.v)
        except StopIteration:
            return self.resolve(p, UNDEF)
        except Throw as t:
            return self.reject(p, t.v)
        w, label, env = y
        q = w if isinstance(w, Promise) else Promise()
        if q is not w:
            self.resolve(q, w)
        nm = "await at %s" % label.pos
        q.reactions.append((Nat(nm, lambda m, this, a: m.step(g, p, a[0], None), (p, env)),
                            Nat(nm, lambda m, this, a: m.step(g, p, None, Throw(a[0])), (p, env)), Promise()))
        if q.state != "pending":
            self.schedule(q)

    def frozen(self, v):
        """What a value is now (as trees of tuples)."""
        if isinstance(v, Arr):
            return ("array",) + tuple(("rest", repr(x.v)) if isinstance(x, Rest) else ("star", self.frozen(x.v)) if isinstance(x, Star) else self.frozen(x) for x in v.items)
        if isinstance(v, (Fn, Nat, SetObj, MapObj, Promise, Sock, Timer)):
            return v
        if isinstance(v, JSObj):
            if v.getters:
                raise Unsupported("getters")
            return ("object", {k: self.frozen(x) for k, x in v.props.items()})
        return v

    # ---- statements
    def hoist(self, stmts, env):
        for s in stmts:
            if s.k == "FunctionDeclaration" and s.get("body"):
                env.vars[s.name.text] = Cell(Fn(s, env, name=s.name.text), "function")
            elif s.k == "VariableStatement":
                for d in s.declarationList.declarations:
                    for n in self.names(d.name):
                        env.vars.setdefault(n, Cell(TDZ if s.declarationList.decl != "var" else UNDEF, s.declarationList.decl))

    def names(self, p):
        if p.k == "Identifier":
            return [p.text]
        out = []
        for e in p.elements:
            if e.k == "BindingElement":
                out += self.names(e.name)
        return out

    def bind(self, p, v, env, kind):
        if p.k == "Identifier":
            c = env.vars.get(p.text)
            if c is not None and c.v is TDZ:
                c.v = v
            else:
                env.vars[p.text] = Cell(v, kind)
            return
        if p.k == "ObjectBindingPattern":
            if v is UNDEF or v is None:
                raise Throw(Op("truthy", "TypeError"))
            for e in p.elements:
                if e.get("rest"):
                    raise Unsupported("rest in a pattern")
                key = e.get("propertyName") or e.name
                if key.k not in ("Identifier", "StringLiteral"):
                    raise Unsupported("computed key in a pattern")
                x = self.get_prop(v, key.text)
                if x is UNDEF and e.get("initializer"):
                    x = self.expr(e.initializer, env)
                self.bind(e.name, x, env, kind)
            return
        if p.k == "ArrayBindingPattern":
            items = self.iterate(v)
            for i, e in enumerate(p.elements):
                if e.k == "OmittedExpression":
                    continue
                if e.get("rest"):
                    x = Arr(items[i:])
                else:
                    x = items[i] if i < len(items) else UNDEF
                    if isinstance(x, (Star, Rest)) or any(isinstance(y, (Star, Rest)) for y in items[:i]):
                        raise Unsupported("pattern over opaque elements")
                    if x is UNDEF and e.get("initializer"):
                        x = self.expr(e.initializer, env)
                self.bind(e.name, x, env, kind)
            return
        raise Unsupported(p.k)

    def body(self, block, env):
        yield from self.block(block.statements, env)

    def block(self, stmts, env):
        self.hoist(stmts, env)
        for s in stmts:
            yield from self.stmt(s, env)

    def value(self, n, env):
        """An expression in a place where it may be awaited."""
        while n.k in ("ParenthesizedExpression", "AsExpression", "NonNullExpression"):
            n = n.expression
        if n.k == "AwaitExpression":
            v = yield from self.value(n.expression, env)
            r = yield (v, n, env)
            return r
        if has_await(n):
            raise Unsupported("await in an expression")
        return self.expr(n, env)

    def stmt(self, s, env):
        k = s.k
        if k == "ExpressionStatement":
            e = s.expression
            while e.k in ("ParenthesizedExpression", "AsExpression"):
                e = e.expression
            if e.k == "BinaryExpression" and e.operator == "=" and has_await(e):
                if has_await(e.left):
                    raise Unsupported("await in an expression")
                v = yield from self.value(e.right, env)
                self.assign(e.left, v, env)
                return
            yield from self.value(e, env)
        elif k == "VariableStatement":
            if s.get("modifiers") and "declare" in s.modifiers:
                return
            yield from self.declare(s.declarationList, env)
        elif k == "ReturnStatement":
            v = UNDEF
            if s.get("expression"):
                v = yield from self.value(s.expression, env)
            raise Return(v)
        elif k == "IfStatement":
            c = yield from self.value(s.expression, env)
            if self.truth(c):
                yield from self.stmt(s.thenStatement, env)
            elif s.get("elseStatement"):
                yield from self.stmt(s.elseStatement, env)
        elif k == "Block":
            yield from self.block(s.statements, Env(env))
        elif k == "ThrowStatement":
            v = yield from self.value(s.expression, env)
            raise Throw(v)
        elif k == "TryStatement":
            yield from self.try_(s, env)
        elif k in ("WhileStatement", "ForStatement", "DoStatement"):
            if has_await(s):
                raise Unsupported("await in a loop")
            self.loop(s, env)
        elif k == "ForOfStatement":
            if has_await(s) or s.get("awaits"):
                raise Unsupported("await in a loop")
            self.for_of(s, env)
        elif k == "BreakStatement" and not s.get("label"):
            raise Break()
        elif k == "ContinueStatement" and not s.get("label"):
            raise Continue()
        elif k == "SwitchStatement":
            if has_await(s):
                raise Unsupported("await in switch")
            self.switch(s, env)
        elif k in ("FunctionDeclaration", "InterfaceDeclaration", "TypeAliasDeclaration", "EmptyStatement", "ImportDeclaration"):
            return
        else:
            raise Unsupported("statement " + k)

    def declare(self, l, env):
        for d in l.declarations:
            if d.get("initializer"):
                v = yield from self.value(d.initializer, env)
            else:
                v = UNDEF
            self.bind(d.name, v, env, l.decl)

    def run(self, s, env):
        for _ in self.stmt(s, env):
            raise Unsupported("await in an expression")

    def try_(self, s, env):
        def handled():
            try:
                yield from self.block(s.tryBlock.statements, Env(env))
            except Throw as t:
                c = s.get("catchClause")
                if not c:
                    raise
                e = Env(env)
                if c.get("variableDeclaration"):
                    self.bind(c.variableDeclaration.name, t.v, e, "let")
                yield from self.block(c.block.statements, e)
        f = s.get("finallyBlock")
        if not f:
            yield from handled()
            return
        try:
            yield from handled()
        except (Throw, Return, Break, Continue) as x:
            yield from self.block(f.statements, Env(env))
            raise x
        yield from self.block(f.statements, Env(env))

    def counted(self, s, env):
        """`for (let i = 0; i < a.length; i++)` over elements some of which stand for several."""
        if s.k != "ForStatement":
            return False
        i, c, n = s.get("initializer"), s.get("condition"), s.get("incrementor")
        if not (i and c and n and i.k == "VariableDeclarationList" and len(i.declarations) == 1 and i.declarations[0].name.k == "Identifier"
                and i.declarations[0].get("initializer") and i.declarations[0].initializer.text == "0"):
            return False
        v = i.declarations[0].name.text
        if not (c.k == "BinaryExpression" and c.operator in ("<", "!==", "!=") and c.left.k == "Identifier" and c.left.text == v
                and c.right.k == "PropertyAccessExpression" and c.right.name.text == "length"):
            return False
        if not (n.k in ("PostfixUnaryExpression", "PrefixUnaryExpression") and n.operator == "++" and n.operand.text == v
                or n.k == "BinaryExpression" and n.operator == "+=" and n.left.text == v and n.right.text == "1"):
            return False
        a = self.expr(c.right.expression, env)
        if not isinstance(a, Arr) or not any(isinstance(x, Star) for x in a.items):
            return False
        stop = []
        items = list(a.items)

        def step(x):
            if stop:
                return
            e = Env(env)
            e.vars[v] = Cell(Index(a, x), "const")
            try:
                self.run(s.statement, e)
            except Break:
                stop.append(x)
            except Continue:
                pass
        self.each(items, step)
        if a.items != items:
            raise Unsupported("an array which changes while it is iterated")
        return True

    def loop(self, s, env):
        env = Env(env)
        if self.counted(s, env):
            return
        if s.k == "ForStatement" and s.get("initializer"):
            if s.initializer.k == "VariableDeclarationList":
                for d in s.initializer.declarations:
                    self.bind(d.name, self.expr(d.initializer, env) if d.get("initializer") else UNDEF, env, s.initializer.decl)
            else:
                self.expr(s.initializer, env)
        seen = set()
        cond = s.get("condition") if s.k == "ForStatement" else s.get("expression")
        first = s.k == "DoStatement"
        while True:
            key = (self.state_key(), tuple((n, self.show(c.v)) for n, c in env.vars.items()))
            if key[0]:
                if key in seen:
                    raise Prune()
                seen.add(key)
            self.fuel -= 10
            if self.fuel < 0:
                raise Diverges()
            if not first and cond is not None and not self.truth(self.expr(cond, env)):
                break
            first = False
            try:
                self.run(s.statement, env)
            except Break:
                break
            except Continue:
                pass
            if s.k == "ForStatement" and s.get("incrementor"):
                self.expr(s.incrementor, env)

    def show(self, v):
        return repr(v) if not isinstance(v, JSObj) else str(id(v))

    def for_of(self, s, env):
        v = self.expr(s.expression, env)
        stop = []

        def step(x):
            if stop:
                return
            e = Env(env)
            if s.initializer.k == "VariableDeclarationList":
                self.bind(s.initializer.declarations[0].name, x, e, s.initializer.decl)
            else:
                self.assign(s.initializer, x, e)
            try:
                self.run(s.statement, e)
            except Break:
                stop.append(x)
            except Continue:
                pass
        if isinstance(v, SetObj):
            self.each_set(v, step)
        else:
            items = self.iterate(v)
            if stop:
                return
            n = len(v.items) if isinstance(v, Arr) else 0
            self.each(items, step)
            if isinstance(v, Arr) and len(v.items) > n:
                raise Unsupported("an array which grows while it is iterated")

    def switch(self, s, env):
        v = self.expr(s.expression, env)
        env = Env(env)
        cs = s.caseBlock.clauses
        for c in cs:
            self.hoist(c.statements, env)
        start = None
        for i, c in enumerate(cs):
            if c.k == "CaseClause" and self.same(v, self.expr(c.expression, env)):
                start = i
                break
        if start is None:
            ds = [i for i, c in enumerate(cs) if c.k == "DefaultClause"]
            if not ds:
                return
            start = ds[0]
        try:
            for c in cs[start:]:
                for x in c.statements:
                    self.run(x, env)
        except Break:
            pass

    # ---- expressions
    def lookup(self, name, env, n=None):
        c = env.find(name)
        if c is None:
            raise Unsupported("the name " + name)
        if c.v is TDZ:
            raise Throw(Op("truthy", "ReferenceError: " + name))
        return c

    def assign(self, t, v, env):
        while t.k in ("ParenthesizedExpression", "AsExpression", "NonNullExpression"):
            t = t.expression
        if t.k == "Identifier":
            c = self.lookup(t.text, env)
            if c.kind == "const":
                raise Throw(Op("truthy", "TypeError: assignment to a constant"))
            c.v = v
        elif t.k == "PropertyAccessExpression":
            self.set_prop(self.expr(t.expression, env), t.name.text, v)
        elif t.k == "ElementAccessExpression":
            o, i = self.expr(t.expression, env), self.expr(t.argumentExpression, env)
            if isinstance(o, Arr):
                if isinstance(i, int) and not any(isinstance(x, (Star, Rest)) for x in o.items) and 0 <= i <= len(o.items):
                    o.items[i:i + 1] = [v]
                    return
                raise Unsupported("array element")
            if not isinstance(i, str):
                raise Unsupported("computed key")
            self.set_prop(o, i, v)
        elif t.k == "ArrayLiteralExpression":
            items = self.iterate(v)
            if any(isinstance(x, (Star, Rest)) for x in items):
                raise Unsupported("pattern over opaque elements")
            for i, e in enumerate(t.elements):
                self.assign(e, items[i] if i < len(items) else UNDEF, env)
        else:
            raise Unsupported("assignment to " + t.k)

    def key(self, n, env):
        if n.k in ("Identifier", "StringLiteral", "NoSubstitutionTemplateLiteral", "NumericLiteral"):
            return n.text
        if n.k == "ComputedPropertyName":
            v = self.expr(n.expression, env)
            if isinstance(v, str):
                return v
        raise Unsupported("computed key")

    def args(self, ns, env):
        out = []
        for a in ns or []:
            if a.k == "SpreadElement":
                for x in self.iterate(self.expr(a.expression, env)):
                    out.append(x)
            else:
                out.append(self.expr(a, env))
        return out

    def expr(self, n, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Diverges()
        f = getattr(self, "x_" + n.k, None)
        if f is None:
            raise Unsupported("expression " + n.k)
        return f(n, env)

    def x_Identifier(self, n, env):
        if n.text == "undefined":
            return UNDEF
        return self.lookup(n.text, env).v

    def x_ThisKeyword(self, n, env):
        c = env.find("this")
        return c.v if c else UNDEF

    def x_StringLiteral(self, n, env):
        return n.text
    x_NoSubstitutionTemplateLiteral = x_StringLiteral

    def x_NumericLiteral(self, n, env):
        v = float(n.text)
        return int(v) if v == int(v) else v

    def x_TrueKeyword(self, n, env):
        return True

    def x_FalseKeyword(self, n, env):
        return False

    def x_NullKeyword(self, n, env):
        return None

    def x_ParenthesizedExpression(self, n, env):
        return self.expr(n.expression, env)
    x_AsExpression = x_NonNullExpression = x_SatisfiesExpression = x_TypeAssertionExpression = x_ParenthesizedExpression

    def x_VoidExpression(self, n, env):
        self.expr(n.expression, env)
        return UNDEF

    def x_ArrowFunction(self, n, env):
        return Fn(n, env)

    def x_FunctionExpression(self, n, env):
        if n.get("name"):
            e = Env(env)
            f = Fn(n, e)
            e.vars[n.name.text] = Cell(f, "const")
            return f
        return Fn(n, env)

    def x_ObjectLiteralExpression(self, n, env):
        o = JSObj()
        for p in n.properties:
            if p.k == "PropertyAssignment":
                o.props[self.key(p.name, env)] = self.expr(p.initializer, env)
            elif p.k == "ShorthandPropertyAssignment":
                o.props[p.name.text] = self.lookup(p.name.text, env).v if p.name.text != "undefined" else UNDEF
            elif p.k == "MethodDeclaration":
                o.props[self.key(p.name, env)] = Fn(p, env)
            elif p.k == "GetAccessor":
                o.getters[self.key(p.name, env)] = Fn(p, env)
            elif p.k == "SpreadAssignment":
                v = self.expr(p.expression, env)
                if not isinstance(v, JSObj) or v.cls != "object":
                    raise Unsupported("spread of %r" % (v,))
                o.props.update(v.props)
            else:
                raise Unsupported(p.k)
        return o

    def x_ArrayLiteralExpression(self, n, env):
        a = Arr()
        for e in n.elements:
            if e.k == "SpreadElement":
                for x in self.iterate(self.expr(e.expression, env)):
                    a.items.append(x)
            else:
                a.push(self.expr(e, env))
        return a

    def x_TemplateExpression(self, n, env):
        out = [n.head.text]
        for s in n.templateSpans:
            v = self.expr(s.expression, env)
            out.append(v if isinstance(v, str) else Op("text of", v) if not isinstance(v, int) else str(v))
            out.append(s.literal.text)
        if all(isinstance(x, str) for x in out):
            return "".join(out)
        return Op("text", *[x for x in out if x != ""])

    def x_ConditionalExpression(self, n, env):
        return self.expr(n.whenTrue if self.truth(self.expr(n.condition, env)) else n.whenFalse, env)

    def x_TypeOfExpression(self, n, env):
        if n.expression.k == "Identifier" and env.find(n.expression.text) is None:
            return "undefined"
        return self.typeof(self.expr(n.expression, env))

    def x_PrefixUnaryExpression(self, n, env):
        if n.operator == "!":
            return not self.truth(self.expr(n.operand, env))
        if n.operator in ("++", "--"):
            v = self.arith("+" if n.operator == "++" else "-", self.expr(n.operand, env), 1)
            self.assign(n.operand, v, env)
            return v
        if n.operator == "-":
            return self.arith("-", 0, self.expr(n.operand, env))
        if n.operator == "+":
            return self.num(self.expr(n.operand, env))
        raise Unsupported("prefix " + n.operator)

    def x_PostfixUnaryExpression(self, n, env):
        v = self.num(self.expr(n.operand, env))
        self.assign(n.operand, self.arith("+" if n.operator == "++" else "-", v, 1), env)
        return v

    def x_DeleteExpression(self, n, env):
        t = n.expression
        if t.k == "PropertyAccessExpression":
            o = self.expr(t.expression, env)
            if isinstance(o, JSObj):
                o.props.pop(t.name.text, None)
                return True
        raise Unsupported("delete")

    def x_BinaryExpression(self, n, env):
        op = n.operator
        if op == "=":
            v = self.expr(n.right, env)
            self.assign(n.left, v, env)
            return v
        if op in ("&&=", "||=", "??="):
            v = self.expr(n.left, env)
            go = {"&&=": lambda: self.truth(v), "||=": lambda: not self.truth(v), "??=": lambda: v is UNDEF or v is None}[op]()
            if go:
                v = self.expr(n.right, env)
                self.assign(n.left, v, env)
            return v
        if op in ("+=", "-=", "*=", "/=", "%="):
            v = self.plus(self.expr(n.left, env), self.expr(n.right, env)) if op == "+=" else self.arith(op[:-1], self.expr(n.left, env), self.expr(n.right, env))
            self.assign(n.left, v, env)
            return v
        a = self.expr(n.left, env)
        if op == "&&":
            return self.expr(n.right, env) if self.truth(a) else a
        if op == "||":
            return a if self.truth(a) else self.expr(n.right, env)
        if op == "??":
            if isinstance(a, Op) and a.kind not in ("message", "function", "truthy", "json text"):
                if self.unknown("%r is nullish" % a):
                    return self.expr(n.right, env)
                return a
            return self.expr(n.right, env) if a is UNDEF or a is None else a
        b = self.expr(n.right, env)
        if op == ",":
            return b
        if op in ("===", "=="):
            return self.same(a, b, op == "==")
        if op in ("!==", "!="):
            return not self.same(a, b, op == "!=")
        if op in ("<", ">", "<=", ">="):
            return self.compare(op, a, b)
        if op == "in":
            if isinstance(b, JSObj) and isinstance(a, str):
                return a in b.props
            raise Unsupported("in")
        if op == "instanceof":
            if isinstance(b, Nat) and b.label.startswith("class "):
                return isinstance(a, JSObj) and a.cls == b.label[6:].lower()
            raise Unsupported("instanceof")
        if op == "+":
            return self.plus(a, b)
        return self.arith(op, a, b)

    def plus(self, a, b):
        strs = lambda v: isinstance(v, str) or isinstance(v, Op) and v.kind in ("text", "json text", "message", "other message", "string", "text of")
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if strs(a) or strs(b):
            parts = []
            for v in (a, b):
                if isinstance(v, Op) and v.kind == "text":
                    parts += v.args
                else:
                    parts.append(v if strs(v) else Op("text of", v) if not isinstance(v, int) else str(v))
            return Op("text", *parts)
        return self.arith("+", a, b)

    def chain(self, n, env):
        """(this, value, short): the value of a member access."""
        o = self.expr(n.expression, env)
        if n.get("optional") and (o is UNDEF or o is None):
            return None, UNDEF, True
        if o is UNDEF and n.expression.k in ("PropertyAccessExpression", "CallExpression", "ElementAccessExpression") and self.optional(n.expression):
            return None, UNDEF, True
        if n.k == "PropertyAccessExpression":
            if n.name.k == "PrivateIdentifier":
                raise Unsupported("private member")
            return o, self.get_prop(o, n.name.text, n), False
        i = self.expr(n.argumentExpression, env)
        if isinstance(o, Arr):
            i = self.length_number(i)
            if isinstance(i, Index) and i.arr is o:
                return o, i.v, False
            if isinstance(i, int) and not isinstance(i, bool):
                if 0 <= i < len(o.items) and not any(isinstance(x, (Star, Rest)) for x in o.items[:i + 1]):
                    return o, o.items[i], False
                if not any(isinstance(x, (Star, Rest)) for x in o.items):
                    return o, UNDEF, False
                if i == 0:
                    if isinstance(o.items[0], Star):
                        return o, o.items[0].v, False
            if isinstance(i, (AnyNum, Sym)) and all(isinstance(x, (int, float)) for x in o.items):
                return o, ANY, False
            raise Unsupported("array element")
        if isinstance(i, str):
            return o, self.get_prop(o, i, n), False
        raise Unsupported("computed member")

    def optional(self, n):
        while n.k in ("PropertyAccessExpression", "CallExpression", "ElementAccessExpression"):
            if n.get("optional"):
                return True
            n = n.expression
        return False

    def x_PropertyAccessExpression(self, n, env):
        return self.chain(n, env)[1]
    x_ElementAccessExpression = x_PropertyAccessExpression

    def x_CallExpression(self, n, env):
        c = n.expression
        while c.k in ("ParenthesizedExpression", "NonNullExpression", "AsExpression"):
            c = c.expression
        this = UNDEF
        if c.k in ("PropertyAccessExpression", "ElementAccessExpression"):
            this, f, short = self.chain(c, env)
            if short:
                return UNDEF
        else:
            f = self.expr(c, env)
        if n.get("optional") and (f is UNDEF or f is None):
            return UNDEF
        return self.call(f, this, self.args(n.get("arguments"), env))

    def x_NewExpression(self, n, env):
        f = self.expr(n.expression, env)
        a = self.args(n.get("arguments"), env)
        if isinstance(f, Nat) and f.label.startswith("class "):
            return f.f(self, None, a)
        raise Unsupported("new of %r" % (f,))

    # ---- the global names
    def builtins(self):
        g = self.env.vars

        def name(k, v):
            g[k] = Cell(v, "const")
        nothing = lambda m, this, a: UNDEF
        con = JSObj({k: Nat("console", nothing) for k in ("log", "debug", "trace", "warn", "error", "info", "group", "groupEnd", "time", "timeEnd", "assert", "count")})
        name("console", con)
        name("performance", JSObj({"now": Nat("now", lambda m, this, a: ANY), "mark": Nat("mark", nothing)}))
        name("Date", JSObj({"now": Nat("now", lambda m, this, a: ANY)}))

        def stringify(m, this, a):
            if len(a) != 1:
                raise Unsupported("JSON.stringify with options")
            return Op("json text", m.frozen(a[0]))

        def parse(m, this, a):
            if isinstance(a[0], Op) and a[0] in m.stub:
                return m.stub[a[0]]()
            raise Unsupported("JSON.parse of %r" % (a[0],))
        name("JSON", JSObj({"stringify": Nat("stringify", stringify), "parse": Nat("parse", parse)}))

        def new_set(m, this, a):
            s = SetObj()
            if a and a[0] is not UNDEF and a[0] is not None:
                if isinstance(a[0], SetObj):
                    s.known, s.others = list(a[0].known), dict(a[0].others)
                else:
                    for x in m.iterate(a[0]):
                        m.method(s, "add", [x.v if isinstance(x, Star) else x])
            return s
        name("Set", Nat("class Set", new_set))

        def new_map(m, this, a):
            if a and a[0] is not UNDEF and a[0] is not None:
                raise Unsupported("new Map of entries")
            return MapObj()
        name("Map", Nat("class Map", new_map))

        def new_promise(m, this, a):
            p = Promise()
            try:
                m.call(a[0], UNDEF, [Nat("resolve", lambda m, this, b: m.resolve(p, b[0] if b else UNDEF) or UNDEF, (p,)),
                                     Nat("reject", lambda m, this, b: m.reject(p, b[0] if b else UNDEF) or UNDEF, (p,))])
            except Throw as t:
                m.reject(p, t.v)
            return p

        def resolved(m, this, a):
            if a and isinstance(a[0], Promise):
                return a[0]
            p = Promise()
            m.resolve(p, a[0] if a else UNDEF)
            return p

        def rejected(m, this, a):
            p = Promise()
            m.reject(p, a[0] if a else UNDEF)
            return p
        pc = Nat("class Promise", new_promise)
        pc.props.update({"resolve": Nat("Promise.resolve", resolved), "reject": Nat("Promise.reject", rejected)})
        name("Promise", pc)

        def new_array_from(m, this, a):
            if len(a) > 1:
                raise Unsupported("Array.from with a function")
            return Arr(m.iterate(a[0]))
        ac = Nat("class Array", lambda m, this, a: Arr() if not a else (_ for _ in ()).throw(Unsupported("new Array")))
        ac.props["from"] = Nat("Array.from", new_array_from)
        ac.props["isArray"] = Nat("Array.isArray", lambda m, this, a: isinstance(a[0], Arr))
        slice_ = Nat("slice", None)
        slice_.f = lambda m, this, a: Arr(m.iterate(this))
        ac.props["prototype"] = JSObj({"slice": slice_})
        name("Array", ac)
        err = Nat("class Error", lambda m, this, a: Op("truthy", "Error"))
        name("Error", err)
        ws = Nat("class WebSocket", lambda m, this, a: m.make_socket(a[0] if a else UNDEF))
        ws.props.update({"CONNECTING": 0, "OPEN": 1, "CLOSING": 2, "CLOSED": 3})
        name("WebSocket", ws)

        def set_timeout(m, this, a):
            if len(a) > 2:
                raise Unsupported("setTimeout with arguments")
            t = Timer(a[0])
            m.timers.append(t)
            return t

        def clear_timeout(m, this, a):
            if a and isinstance(a[0], Timer):
                a[0].live = False
            return UNDEF
        name("setTimeout", Nat("setTimeout", set_timeout))
        name("clearTimeout", Nat("clearTimeout", clear_timeout))

        def micro(m, this, a):
            m.tasks.append((None, a[0], None, None))
            return UNDEF
        name("queueMicrotask", Nat("queueMicrotask", micro))

        def minmax(pick):
            def f(m, this, a):
                a = [m.length_number(m.num(x)) for x in a]
                if all(isinstance(x, (int, float)) for x in a):
                    return pick(a)
                return ANY
            return f
        name("Math", JSObj({"min": Nat("min", minmax(min)), "max": Nat("max", minmax(max)), "random": Nat("random", lambda m, this, a: ANY),
                            "floor": Nat("floor", lambda m, this, a: a[0] if isinstance(a[0], (int, Sym, AnyNum)) else ANY)}))
        name("Symbol", Nat("Symbol", lambda m, this, a: Symb()))
        name("Boolean", Nat("Boolean", lambda m, this, a: m.truth(a[0])))
        name("Object", JSObj({"freeze": Nat("freeze", lambda m, this, a: a[0]), "assign": Nat("assign", self.obj_assign)}))
        gw = JSObj()
        name("globalThis", gw)

    def obj_assign(self, m, this, a):
        for x in a[1:]:
            if not isinstance(x, JSObj) or x.cls != "object":
                raise Unsupported("Object.assign")
            for k, v in x.props.items():
                self.set_prop(a[0], k, v)
        return a[0]

    def load(self):
        """Runs the module; returns its variables."""
        env = Env(self.env)
        for s in self.stmts:
            if s.k == "ImportDeclaration" and s.get("importClause"):
                c = s.importClause
                b = c.get("namedBindings")
                if b is not None and b.k == "NamespaceImport":
                    env.vars[b.name.text] = Cell(Op("module"), "const")
                elif b is not None and b.get("elements") is not None:
                    for e in b.elements:
                        env.vars[e.name.text] = Cell(Op("imported", e.name.text), "const")
                if c.get("name"):
                    env.vars[c.name.text] = Cell(Op("imported", c.name.text), "const")
        for _ in self.block(self.stmts, env):
            raise Unsupported("await at the top level")
        self.module = env
        self.exports = {}
        for s in self.stmts:
            if "export" in (s.get("modifiers") or []):
                if s.k == "FunctionDeclaration":
                    self.exports[s.name.text] = s.name.text
                elif s.k == "VariableStatement":
                    for d in s.declarationList.declarations:
                        for n in self.names(d.name):
                            self.exports[n] = n
            elif s.k == "ExportDeclaration":
                raise Unsupported("export list")
        return env
