"""Trace-partitioned value-numbering abstract interpreter over Python syntax trees.

Nothing of the analysed program is executed: every expression is mapped to a
hash-consed value term, control flow is partitioned by branch conditions, and
loops are summarised by one abstract iteration (append-loops and comprehensions
get the same summary).  No solver is involved; conditions are decided only when
they are syntactically known on the path.
"""
import ast
import sys

from .terms import (T, mk, const, NONE, TRUE, FALSE, is_const, cval, item,
                    subst, walk, skey)
from .loader import ClassInfo, FuncInfo, Module

sys.setrecursionlimit(20000)

BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
          ast.Mod: "%", ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>",
          ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.MatMult: "@"}
UNOPS = {ast.USub: "-", ast.UAdd: "+", ast.Invert: "~"}

BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)
BUILTINS |= {"basestring", "unicode", "long", "xrange", "NULL", "reduce"}


class Overflow(Exception):
    """The trace partition became too large: the function stays undecided."""


class Event(object):
    __slots__ = ("kind", "term", "where", "conds", "loops", "fn", "extra")

    def __init__(self, kind, term, where, conds, loops, fn, extra=None):
        self.kind = kind
        self.term = term
        self.where = where
        self.conds = conds
        self.loops = loops
        self.fn = fn
        self.extra = extra

    def __repr__(self):
        return "<%s %r @%s>" % (self.kind, self.term, self.where)

    def key(self):
        return (self.kind, self.term, self.where, self.extra)


class Obj(object):
    __slots__ = ("kind", "entries", "base")

    def __init__(self, kind, entries=(), base=None):
        self.kind = kind
        self.entries = tuple(entries)
        self.base = base


FRONT = mk("ext", "front")     # base of a list that grew at its front


class State(object):
    __slots__ = ("env", "heap", "attrs", "conds", "events", "loops", "frames")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.attrs = {}
        self.conds = ()
        self.events = ()
        self.loops = ()
        self.frames = ()

    def fork(self):
        s = State.__new__(State)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.attrs = dict(self.attrs)
        s.conds = self.conds
        s.events = self.events
        s.loops = self.loops
        s.frames = self.frames
        return s


class Path(object):
    """One class of the trace partition of a function."""
    __slots__ = ("state", "kind", "value", "where")

    def __init__(self, state, kind, value, where):
        self.state = state
        self.kind = kind
        self.value = value
        self.where = where

    @property
    def conds(self):
        return self.state.conds

    @property
    def events(self):
        return self.state.events

    def __repr__(self):
        return "<%s %r if %s>" % (self.kind, self.value,
                                  " and ".join(("" if v else "not ") + repr(c) for c, v in self.conds))


class Policy(object):
    """What the interpreter does at calls; subclassed by the checks."""
    max_depth = 5
    max_states = 256
    unroll = 8
    no_inline = ()       # method / function names kept opaque
    record_calls = True

    def inline(self, interp, f, recv, depth):
        return f.name not in self.no_inline

    def inline_property(self, interp, f, recv, depth):
        return self.inline(interp, f, recv, depth)

    def type_of(self, interp, term, st):
        return None

    def decide(self, interp, term, st):
        return None

    def call(self, interp, fterm, args, st):
        """Hook: return a term to replace the call, or None."""
        return None

    def attr(self, interp, base, name, st):
        return None

    def resolve_method(self, interp, base, name, st):
        """Callee of a method call on a receiver of unknown class."""
        return None


class Interp(object):
    def __init__(self, program, policy=None):
        self.p = program
        self.policy = policy or Policy()
        self.counter = 0
        self.closures = {}
        self.stack = []
        self.undecided = []
        self.nstates = 0
        self.shared = set()
        self.breaks = []
        self.origin = {}            # call term -> heap objects among its arguments

    # ------------------------------------------------------------ entry points
    def run(self, f, cls=None, args=None, kwkeys=None, conds=()):
        """Analyse FuncInfo f with symbolic parameters (self of class cls).
        kwkeys: names of the keyword arguments present in **kwargs (None: unknown)."""
        st = State()
        st.conds = tuple(conds)
        env = {}
        params = f.pos + f.kwonly
        self.self_cls = cls or f.cls
        for i, n in enumerate(params):
            if args and n in args:
                env[n] = args[n]
            else:
                env[n] = mk("param", n)
        if f.cls is not None and not f.is_static and params:
            first = params[0]
            if f.is_classmethod:
                if not (args and first in args):
                    env[first] = mk("class", self.self_cls.qual)
            else:
                self.self_term = env[first]
        if f.vararg:
            env[f.vararg] = args[f.vararg] if args and f.vararg in args else mk("param", "*" + f.vararg)
        if f.kwarg:
            if kwkeys is not None:
                env[f.kwarg] = self.alloc(st, "dict", [mk("kv", const(k), mk("param", k)) for k in kwkeys])
            else:
                env[f.kwarg] = args[f.kwarg] if args and f.kwarg in args else mk("param", "**" + f.kwarg)
        st.env = env
        self.nstates = 0
        return self.run_body(f, st)

    def run_body(self, f, st):
        self.stack.append((f, f.module))
        try:
            if f.is_generator:
                oid = self.alloc(st, "gen")
                st.env["<yield>"] = oid
            outs = self.exec_block(f.node.body, st)
        finally:
            self.stack.pop()
        paths = []
        for s, sig, val, where in outs:
            if sig == "fall":
                sig, val = "return", NONE
            if sig == "return":
                if f.is_generator:
                    val = s.env["<yield>"]
            if sig in ("break", "continue"):
                continue
            paths.append(Path(s, sig, val, where))
        return paths

    # ------------------------------------------------------------ helpers
    @property
    def module(self):
        return self.stack[-1][1]

    @property
    def fn(self):
        return self.stack[-1][0]

    def where(self, node):
        return "%s:%d" % (self.module.rel, getattr(node, "lineno", 0))

    def fresh(self, tag="u"):
        self.counter += 1
        return mk("unknown", tag, self.counter)

    def alloc(self, st, kind, entries=(), base=None):
        self.counter += 1
        t = mk("obj", self.counter)
        st.heap[t] = Obj(kind, entries, base)
        return t

    def event(self, st, kind, term, node, extra=None):
        st.events = st.events + (Event(kind, term, self.where(node), st.conds, st.loops,
                                       self.fn.qual if self.fn else "?", extra),)

    def reify(self, t, st, depth=0):
        """Replace heap references in a term by their present contents."""
        if depth > 12:
            return t
        if isinstance(t, tuple):
            return tuple(self.reify(a, st, depth) for a in t)
        if not isinstance(t, T):
            return t
        if t.op == "obj":
            o = st.heap.get(t)
            if o is None:
                return t
            ents = tuple(self.reify(e, st, depth + 1) for e in o.entries)
            if o.kind == "dict":
                return mk("dict", *ents)
            if o.kind == "set":
                return mk("set", *ents)
            if o.kind == "array":
                return mk("arr", self.reify(o.base, st, depth + 1), *ents) if ents else \
                    self.reify(o.base, st, depth + 1)
            if len(ents) == 1 and ents[0].op == "star":
                return mk("list", *ents)
            return mk("list", *ents)
        if not any(x.op == "obj" for x in walk(t)):
            return t
        args = tuple(self.reify(a, st, depth) for a in t.args)
        if args == t.args:
            return t
        if t.op == "item":
            return item(*args)
        return mk(t.op, *args)

    # ------------------------------------------------------------ types
    def type_of(self, t, st):
        """ClassInfo of a term when known."""
        if t is getattr(self, "self_term", None):
            return self.self_cls
        if t.op == "new" and t.args[0].op == "class":
            return self.p.cls(t.args[0].args[0])
        r = self.policy.type_of(self, t, st)
        if r is not None:
            return r
        hits = [c for c in st.conds if c[1] and c[0].op == "isinstance" and c[0].args[0] is t
                and c[0].args[1].op == "class"]
        for c in hits:
            return self.p.cls(c[0].args[1].args[0])
        return None

    # ------------------------------------------------------------ conditions
    def decide(self, t, st):
        op = t.op
        if op == "const":
            return bool(cval(t))
        r = self.policy.decide(self, t, st)
        if r is not None:
            return r
        if op == "not":
            r = self.decide(t.args[0], st)
            return None if r is None else not r
        if op == "and":
            rs = [self.decide(a, st) for a in t.args]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        if op == "or":
            rs = [self.decide(a, st) for a in t.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        for c, v in st.conds:
            if c is t:
                return v
        if op == "isnone":
            x = t.args[0]
            if x.op in ("new", "tuple", "list", "dict", "obj", "class", "func", "bound", "closure", "bin", "mod", "cmp"):
                return False
            if x is NONE:
                return True
            if x.op == "const":
                return False
            if x is getattr(self, "self_term", None):
                return False
            for c, v in st.conds:
                if v and c.op == "isinstance" and c.args[0] is x:
                    return False
                if c is x and v:
                    return False
        if op == "cmp":
            o, a, b = t.args
            if is_const(a) and is_const(b):
                try:
                    x, y = cval(a), cval(b)
                    return {"==": x == y, "<": x < y if o == "<" else None,
                            "<=": x <= y if o == "<=" else None}.get(o)
                except TypeError:
                    return None
            if a is b and o in ("==", "<="):
                return None if a.op in ("unknown",) else True
            if o == "==" and (is_const(a) or is_const(b)):
                k, x = (a, b) if is_const(a) else (b, a)
                for c, v in st.conds:
                    if v and c.op == "cmp" and c.args[0] == "==" and c is not t:
                        p, q = c.args[1:]
                        if x in (p, q):
                            other = q if p is x else p
                            if is_const(other) and cval(other) != cval(k):
                                return False
            if o == "<":
                for c, v in st.conds:
                    if c.op == "cmp" and c.args[0] == "<=" and c.args[1] is b and c.args[2] is a:
                        return not v
            if o == "<=":
                for c, v in st.conds:
                    if c.op == "cmp" and c.args[0] == "<" and c.args[1] is b and c.args[2] is a:
                        return not v
        if op == "isinstance":
            x, c = t.args
            if c.op == "class":
                ci = self.p.cls(c.args[0])
                tx = self.type_of(x, st)
                if ci is not None and tx is not None:
                    if tx.issub(ci):
                        return True
                    exact = x is getattr(self, "self_term", None) or x.op == "new"
                    if exact or not any(k.issub(ci) and k.issub(tx) for k in self.p.all_classes()):
                        return False
            if x.op == "const" and c.op == "class":
                return False
            if x.op in ("tuple",) and c.op == "ext":
                return c.args[0] in ("tuple",)
            if x.op == "const" and c.op == "ext" and c.args[0] in ("int", "float", "str", "bool", "dict", "list", "tuple"):
                return type(cval(x)).__name__ == c.args[0] or (c.args[0] == "int" and isinstance(cval(x), bool))
            if x.op == "obj" and x in st.heap and c.op == "ext":
                k = {"list": "list", "dict": "dict", "set": "set"}.get(st.heap[x].kind)
                if k and c.args[0] in ("list", "dict", "set", "tuple", "int", "float", "str"):
                    return k == c.args[0]
            if x.op == "obj" and x in st.heap and c.op == "class":
                return False
        if op == "hasattr":
            x, n = t.args
            tx = self.type_of(x, st)
            if tx is not None and (tx.lookup(n) is not None or tx.lookup_attr(n) is not None):
                return True
            if tx is not None and (x is getattr(self, "self_term", None) or x.op == "new") \
                    and not tx.has_external_base():
                a = self.p.attr_status(tx, n)
                if a is not None:
                    return a
        if op == "truth" or op == "obj":
            x = t if op == "obj" else t.args[0]
            o = st.heap.get(x)
            if o is not None and o.kind in ("list", "dict", "set"):
                if not o.entries:
                    return False
                if any(e.op not in ("each", "star", "set") for e in o.entries):
                    return True
        if op == "tuple":
            return len(t.args) > 0 if not any(a.op == "star" for a in t.args) else None
        return None

    def assume(self, st, t, v):
        """Add a condition; returns False if contradictory."""
        if t.op == "not":
            return self.assume(st, t.args[0], not v)
        if t.op == "and" and v:
            return all([self.assume(st, a, True) for a in t.args])
        if t.op == "or" and not v:
            return all([self.assume(st, a, False) for a in t.args])
        d = self.decide(t, st)
        if d is not None:
            return d == v
        st.conds = st.conds + ((t, v),)
        return True

    def branch_term(self, t, st):
        if t.op == "not":
            a, b = self.branch_term(t.args[0], st)
            return b, a
        if t.op == "and":
            trues, falses = [st], []
            for a in t.args:
                nt = []
                for s in trues:
                    x, y = self.branch_term(a, s)
                    nt.extend(x)
                    falses.extend(y)
                trues = nt
            return trues, falses
        if t.op == "or":
            trues, falses = [], [st]
            for a in t.args:
                nf = []
                for s in falses:
                    x, y = self.branch_term(a, s)
                    trues.extend(x)
                    nf.extend(y)
                falses = nf
            return trues, falses
        d = self.decide(t, st)
        if d is True:
            return [st], []
        if d is False:
            return [], [st]
        t2 = self.reify(t, st)
        f = st.fork()
        st.conds = st.conds + ((t2, True),)
        f.conds = f.conds + ((t2, False),)
        self.tick()
        return [st], [f]

    def tick(self):
        self.nstates += 1
        if self.nstates > self.policy.max_states * 40:
            raise Overflow()

    def branch(self, e, st):
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                trues, falses = [st], []
                for v in e.values:
                    nt = []
                    for s in trues:
                        a, b = self.branch(v, s)
                        nt.extend(a)
                        falses.extend(b)
                    trues = nt
                return trues, falses
            trues, falses = [], [st]
            for v in e.values:
                nf = []
                for s in falses:
                    a, b = self.branch(v, s)
                    trues.extend(a)
                    nf.extend(b)
                falses = nf
            return trues, falses
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            a, b = self.branch(e.operand, st)
            return b, a
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            # a < b < c
            vals = []
            outs = self.evals([e.left] + e.comparators, st)
            trues, falses = [], []
            for vs, s in outs:
                t = mk("and", *[self.compare(op, vs[i], vs[i + 1], s) for i, op in enumerate(e.ops)])
                a, b = self.branch_term(t, s)
                trues.extend(a)
                falses.extend(b)
            return trues, falses
        trues, falses = [], []
        for t, s in self.eval(e, st):
            a, b = self.branch_term(t, s)
            trues.extend(a)
            falses.extend(b)
        return trues, falses

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        """-> list of (state, signal, value, where)"""
        done = []
        cur = [st]
        for i, s in enumerate(stmts):
            nxt = []
            for c in cur:
                for out in self.exec(s, c):
                    if out[1] == "fall":
                        nxt.append(out[0])
                    else:
                        done.append(out)
            cur = nxt
            if len(cur) > self.policy.max_states:
                cur = [self.join(cur)]
            if not cur:
                break
        w = self.where(stmts[-1]) if stmts else ""
        return done + [(c, "fall", NONE, w) for c in cur]

    def join(self, states):
        base = states[0].fork()
        n = 0
        while all(len(s.conds) > n and s.conds[n] == base.conds[n] for s in states) and n < len(base.conds):
            n += 1
        base.conds = base.conds[:n]
        names = set()
        for s in states:
            names |= set(s.env)
        for nme in names:
            vals = []
            for s in states:
                v = s.env.get(nme)
                v = self.reify(v, s) if v is not None else mk("undef")
                if v not in vals:
                    vals.append(v)
            if len(vals) > 1:
                base.env[nme] = mk("phi", *sorted(vals, key=skey))
        evs, seen = [], set()
        for s in states:
            for e in s.events:
                if e.key() not in seen:
                    seen.add(e.key())
                    evs.append(e)
            for k, v in s.heap.items():
                base.heap.setdefault(k, v)
        base.events = tuple(evs)
        keys = set()
        for s in states:
            keys |= set(s.attrs)
        for k in keys:
            vals = []
            for s in states:
                v = self.reify(s.attrs.get(k, mk("attr", k[0], k[1])), s)
                if v not in vals:
                    vals.append(v)
            base.attrs[k] = vals[0] if len(vals) == 1 else mk("phi", *sorted(vals, key=skey))
        return base

    def exec(self, s, st):
        self.tick()
        m = getattr(self, "exec_" + type(s).__name__, None)
        if m is None:
            self.event(st, "unsupported", const(type(s).__name__), s)
            return [(st, "fall", NONE, self.where(s))]
        return m(s, st)

    def fall(self, states, s):
        return [(c, "fall", NONE, self.where(s)) for c in states]

    def exec_Pass(self, s, st):
        return self.fall([st], s)

    exec_Global = exec_Nonlocal = exec_Pass

    def exec_Import(self, s, st):
        for a in s.names:
            full = a.name if a.asname else a.name.split(".")[0]
            mod = self.p.modules.get(full)
            st.env[a.asname or full] = mk("mod", full) if mod else mk("ext", full)
        return self.fall([st], s)

    def exec_ImportFrom(self, s, st):
        base = self.p._from_base(self.module, s)
        for a in s.names:
            m = self.p.modules.get(base)
            r = self.p.resolve(m, a.name) if m else None
            if r is None:
                full = base + "." + a.name if base else a.name
                r = self.p.modules.get(full) or ("ext", full)
            st.env[a.asname or a.name] = self.lift(r, a.name)
        return self.fall([st], s)

    def exec_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return self.fall([st], s)
        if isinstance(s.value, ast.Yield):
            return self.do_yield(s.value, st)
        if isinstance(s.value, ast.YieldFrom):
            outs = []
            for v, c in self.eval(s.value.value, st):
                self.list_append(c, c.env.get("<yield>"), mk("star", v))
                outs.append(c)
            return self.fall(outs, s)
        return self.fall([c for _, c in self.eval(s.value, st)], s)

    def do_yield(self, e, st):
        outs = []
        if e.value is None:
            vals = [(NONE, st)]
        else:
            vals = self.eval(e.value, st)
        for v, c in vals:
            self.event(c, "yield", self.reify(v, c), e)
            if "<yield>" in c.env:
                self.list_append(c, c.env["<yield>"], v)
            outs.append(c)
        return self.fall(outs, e)

    def exec_Assign(self, s, st):
        outs = []
        for v, c in self.eval(s.value, st):
            ss = [c]
            for t in s.targets:
                ss = [y for x in ss for y in self.assign(t, v, x)]
            outs.extend(ss)
        return self.fall(outs, s)

    def exec_AnnAssign(self, s, st):
        if s.value is None:
            return self.fall([st], s)
        outs = []
        for v, c in self.eval(s.value, st):
            outs.extend(self.assign(s.target, v, c))
        return self.fall(outs, s)

    def exec_AugAssign(self, s, st):
        load = ast.copy_location(_as_load(s.target), s.target)
        op = BINOPS.get(type(s.op), "?")
        outs = []
        for (a, b), c in self.evals([load, s.value], st):
            self.event(c, "aug", self.reify(a, c), s, extra=(op, self.reify(b, c), isinstance(s.target, ast.Name)))
            if op == "+" and a.op == "obj" and a in c.heap and c.heap[a].kind == "list":
                self.list_extend(c, a, b)
                outs.append(c)
                continue
            v = self.binop(op, a, b, c)
            outs.extend(self.assign(s.target, v, c, aug=True))
        return self.fall(outs, s)

    def assign(self, target, v, st, aug=False):
        if isinstance(target, ast.Name):
            st.env[target.id] = v
            return [st]
        if isinstance(target, (ast.Tuple, ast.List)):
            return self.unpack(target.elts, v, st)
        if isinstance(target, ast.Starred):
            return self.assign(target.value, v, st)
        if isinstance(target, ast.Attribute):
            outs = []
            for b, c in self.eval(target.value, st):
                if b.op == "obj" and b in c.heap:
                    c.attrs[(b, target.attr)] = v
                else:
                    ty = self.type_of(b, c)
                    setter = None
                    if ty is not None:
                        for k in ty.mro():
                            if target.attr in k.setters:
                                setter = k.setters[target.attr]
                                break
                    if setter is not None and self.policy.inline(self, setter, b, len(self.stack)):
                        for _, c2 in self.call_func(setter, [b, v], {}, c, target, recv=b):
                            outs.append(c2)
                        continue
                    c.attrs[(b, target.attr)] = v
                self.event(c, "setattr", self.reify(b, c), target, extra=(target.attr, self.reify(v, c)))
                outs.append(c)
            return outs
        if isinstance(target, ast.Subscript):
            outs = []
            for (b, k), c in self.evals([target.value, target.slice], st):
                self.store_item(c, b, k, v, target)
                outs.append(c)
            return outs
        return [st]

    def store_item(self, st, b, k, v, node):
        self.event(st, "store", self.reify(b, st), node, extra=(self.reify(k, st), self.reify(v, st), b))
        if b.op == "obj" and b in st.heap:
            o = st.heap[b]
            if o.kind == "dict":
                st.heap[b] = Obj("dict", o.entries + (mk("kv", k, v),), o.base)
            else:
                plain = all(e.op not in ("each", "star", "set") for e in o.entries)
                if o.kind == "list" and is_const(k) and isinstance(cval(k), int) and plain \
                        and -len(o.entries) <= cval(k) < len(o.entries):
                    ents = list(o.entries)
                    ents[cval(k)] = v
                    st.heap[b] = Obj(o.kind, ents, o.base)
                else:
                    st.heap[b] = Obj(o.kind, o.entries + (mk("set", k, v),), o.base)
            return
        new = mk("upd", b, self.reify(k, st), self.reify(v, st))
        for n, x in list(st.env.items()):
            if x is b:
                st.env[n] = new
        if b.op == "attr":
            st.attrs[(b.args[0], b.args[1])] = new

    def unpack(self, elts, v, st):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        vals = None
        seq = None
        if v.op in ("tuple", "list") and not any(a.op in ("each", "star", "set") for a in v.args):
            seq = list(v.args)
        elif v.op == "obj" and v in st.heap and st.heap[v].kind == "list" \
                and not any(a.op in ("each", "star", "set") for a in st.heap[v].entries):
            seq = list(st.heap[v].entries)
        if seq is not None:
            if not star and len(seq) == n:
                vals = seq
            elif star and len(seq) >= n - 1:
                i = star[0]
                k = len(seq) - (n - 1)
                vals = seq[:i] + [mk("list", *seq[i:i + k])] + seq[i + k:]
        if vals is None:
            rv = self.reify(v, st)
            if not star:
                vals = [item(rv, const(i)) for i in range(n)]
            else:
                i0 = star[0]
                vals = []
                for i in range(n):
                    if i < i0:
                        vals.append(item(rv, const(i)))
                    elif i == i0:
                        hi = i - n + 1
                        vals.append(item(rv, mk("slice", const(i), const(hi) if hi else NONE, NONE)))
                    else:
                        vals.append(item(rv, const(i - n)))
        ss = [st]
        for e, x in zip(elts, vals):
            ss = [y for c in ss for y in self.assign(e, x, c)]
        return ss

    def exec_If(self, s, st):
        a, b = self.branch(s.test, st)
        outs = []
        for c in a:
            outs.extend(self.exec_block(s.body, c))
        for c in b:
            if s.orelse:
                outs.extend(self.exec_block(s.orelse, c))
            else:
                outs.append((c, "fall", NONE, self.where(s)))
        return outs

    def exec_Return(self, s, st):
        if s.value is None:
            return [(st, "return", NONE, self.where(s))]
        return [(c, "return", v, self.where(s)) for v, c in self.eval(s.value, st)]

    def exec_Raise(self, s, st):
        if s.exc is None:
            return [(st, "raise", NONE, self.where(s))]
        return [(c, "raise", v, self.where(s)) for v, c in self.eval(s.exc, st)]

    def exec_Assert(self, s, st):
        a, b = self.branch(s.test, st)
        return self.fall(a, s) + [(c, "raise", const("AssertionError"), self.where(s)) for c in b]

    def exec_Break(self, s, st):
        return [(st, "break", NONE, self.where(s))]

    def exec_Continue(self, s, st):
        return [(st, "continue", NONE, self.where(s))]

    def exec_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                for (b, k), c in self.evals([t.value, t.slice], st)[:1]:
                    self.event(c, "delitem", self.reify(b, c), t, extra=(self.reify(k, c),))
                    st = c
            elif isinstance(t, ast.Attribute):
                for b, c in self.eval(t.value, st)[:1]:
                    self.event(c, "delattr", self.reify(b, c), t, extra=(t.attr,))
                    c.attrs.pop((b, t.attr), None)
                    st = c
        return self.fall([st], s)

    def exec_FunctionDef(self, s, st):
        st.env[s.name] = self.closure(s, st)
        return self.fall([st], s)

    def exec_ClassDef(self, s, st):
        st.env[s.name] = self.fresh("class")
        return self.fall([st], s)

    def closure(self, node, st):
        self.counter += 1
        t = mk("closure", self.counter, getattr(node, "name", "<lambda>"))
        self.closures[t] = (node, dict(st.env), self.stack[-1])
        return t

    def exec_With(self, s, st):
        states = [st]
        for it in s.items:
            nxt = []
            for c in states:
                for v, d in self.eval(it.context_expr, c):
                    if it.optional_vars is not None:
                        nxt.extend(self.assign(it.optional_vars, mk("enter", self.reify(v, d)), d))
                    else:
                        nxt.append(d)
            states = nxt
        outs = []
        for c in states:
            outs.extend(self.exec_block(s.body, c))
        return outs

    def exec_Try(self, s, st):
        pre = st.fork()
        outs = []
        body = self.exec_block(s.body, st)
        handled = []
        for o in body:
            if o[1] == "raise" and s.handlers:
                h = self.match_handler(s.handlers, o[2])
                if h is not None:
                    c = o[0]
                    if h.name:
                        c.env[h.name] = o[2]
                    handled.extend(self.exec_block(h.body, c))
                    continue
            if o[1] == "fall" and s.orelse:
                handled.extend(self.exec_block(s.orelse, o[0]))
            else:
                handled.append(o)
        assigned = assigned_names(s.body)
        for h in s.handlers:
            c = pre.fork()
            tn = ast.unparse(h.type) if h.type is not None else "*"
            c.conds = c.conds + ((mk("exc", tn), True),)
            for n in assigned:
                if n in c.env:
                    c.env[n] = mk("phi", c.env[n], mk("unknown", "try", n))
            if h.name:
                c.env[h.name] = mk("unknown", "exc", tn)
            handled.extend(self.exec_block(h.body, c))
        if not s.finalbody:
            return handled
        for o in handled:
            for f in self.exec_block(s.finalbody, o[0]):
                if f[1] == "fall":
                    outs.append((f[0], o[1], o[2], o[3]))
                else:
                    outs.append(f)
        return outs

    exec_TryStar = exec_Try

    def match_handler(self, handlers, exc):
        name = None
        if exc.op == "const":
            name = cval(exc)
        elif exc.op in ("call", "new") and isinstance(exc.args[0], T) and exc.args[0].op in ("ext", "class"):
            name = exc.args[0].args[0].split(".")[-1]
        elif exc.op in ("ext", "class"):
            name = exc.args[0].split(".")[-1]
        for h in handlers:
            if h.type is None:
                return h
            ns = [ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            if name in ns or "Exception" in ns or "BaseException" in ns:
                return h
        return None

    # ------------------------------------------------------------ loops
    def known_seq(self, it, st):
        """Concrete element terms of an iterable, when known and short."""
        if it.op in ("tuple", "list"):
            if not any(a.op in ("each", "star", "set") for a in it.args) and len(it.args) <= self.policy.unroll:
                return list(it.args)
        if it.op == "obj" and it in st.heap:
            o = st.heap[it]
            if o.kind in ("list",) and len(o.entries) <= self.policy.unroll and \
                    not any(a.op in ("each", "star", "set") for a in o.entries):
                return list(o.entries)
        if it.op == "call" and it.args[0].op == "ext":
            n, a = it.args[0].args[0], [v for _, v in it.args[1]]
            if n == "range" and all(is_const(x) and isinstance(cval(x), int) for x in a):
                r = range(*[cval(x) for x in a])
                if len(r) <= self.policy.unroll:
                    return [const(i) for i in r]
            if n == "enumerate" and len(a) == 1:
                s = self.known_seq(a[0], st)
                if s is not None:
                    return [mk("tuple", const(i), x) for i, x in enumerate(s)]
            if n == "zip":
                ss = [self.known_seq(x, st) for x in a]
                if ss and all(x is not None for x in ss):
                    return [mk("tuple", *p) for p in zip(*ss)]
            if n == "reversed" and len(a) == 1:
                s = self.known_seq(a[0], st)
                if s is not None:
                    return s[::-1]
            if n in ("list", "tuple", "iter") and len(a) == 1:
                return self.known_seq(a[0], st)
        return None

    def elem(self, it, depth, st):
        """The generic element of an iterable."""
        it = self.reify(it, st)
        if it.op == "call" and it.args[0].op == "ext":
            n, a = it.args[0].args[0], [v for _, v in it.args[1]]
            if n == "enumerate" and a:
                i = mk("idx", a[0], depth)
                if len(a) > 1 and a[1] is not const(0):
                    i = mk("bin", "+", i, a[1])
                return mk("tuple", i, self.elem(a[0], depth, st))
            if n == "zip" and a and not any(x.op == "star" for x in a):
                return mk("tuple", *[self.elem(x, depth, st) for x in a])
            if n in ("list", "tuple", "iter") and len(a) == 1:
                return self.elem(a[0], depth, st)
            if n == "map" and False:
                pass
        if it.op == "list" and len(it.args) == 1 and it.args[0].op == "star":
            return self.elem(it.args[0].args[0], depth, st)
        if it.op == "list" and len(it.args) == 1 and it.args[0].op == "each":
            # element of a comprehension: its value under the inner iteration
            e = it.args[0]
            return mk("elem", it, depth) if e.args[2] and False else _shift_each(e, depth)
        return mk("elem", it, depth)

    def exec_For(self, s, st):
        outs = []
        for it, c in self.eval(s.iter, st):
            seq = self.known_seq(it, c)
            if seq is not None:
                outs.extend(self.unrolled(s, seq, c))
            else:
                outs.extend(self.abstract_loop(s, it, c))
        return outs

    def unrolled(self, s, seq, st):
        cur, outs, broke = [st], [], []
        for x in seq:
            nxt = []
            for c in cur:
                for c2 in self.assign(s.target, x, c):
                    for o in self.exec_block(s.body, c2):
                        if o[1] in ("fall", "continue"):
                            nxt.append(o[0])
                        elif o[1] == "break":
                            broke.append(o[0])
                        else:
                            outs.append(o)
            cur = nxt
            if len(cur) > self.policy.max_states:
                cur = [self.join(cur)]
        for c in cur:
            if s.orelse:
                outs.extend(self.exec_block(s.orelse, c))
            else:
                outs.append((c, "fall", NONE, self.where(s)))
        outs.extend(self.fall(broke, s))
        return outs

    def exec_While(self, s, st):
        return self.abstract_loop(s, None, st)

    def abstract_loop(self, s, it, st):
        depth = len(st.loops)
        names = assigned_names(s.body)
        tnames = assigned_names([ast.Expr(value=ast.Constant(value=0))])
        if isinstance(s, ast.For):
            tnames = target_names(s.target)
        pre = st.fork()
        # havoc loop-carried variables
        lvs = {}
        count = {}
        body = st.fork()
        for n in names:
            if n in st.env and n not in tnames:
                init = self.reify(st.env[n], st)
                if st.env[n].op == "obj" and n not in rebound_names(s.body):
                    continue
                k = count.get(init, 0)
                count[init] = k + 1
                lv = mk("lv", depth, init, k)
                lvs[n] = lv
                body.env[n] = lv
        # loop-carried attributes
        alv = {}
        for b, a in attr_targets(s.body):
            bt = st.env.get(b)
            if bt is not None and (bt, a) in st.attrs and st.attrs[(bt, a)].op != "obj":
                lv = mk("lv", depth, self.reify(st.attrs[(bt, a)], st), a)
                alv[(bt, a)] = lv
                body.attrs[(bt, a)] = lv
            elif bt is not None and (bt, a) not in st.attrs:
                lv = mk("lv", depth, mk("attr", bt, a), a)
                alv[(bt, a)] = lv
                body.attrs[(bt, a)] = lv
        if isinstance(s, ast.While):
            tests, exits = self.branch(s.test, body)
            tcond = None
            starts = tests
            itt = mk("while", tuple(sorted({c for x in tests for c in x.conds[len(pre.conds):]},
                                           key=lambda c: (skey(c[0]), c[1]))))
        else:
            itt = self.reify(it, st)
            starts = [body]
        rets, ends, breaks = [], [], []
        for c in starts:
            base_n = len(pre.conds)
            c.loops = pre.loops + (itt,)
            if isinstance(s, ast.For):
                cs = self.assign(s.target, self.elem(it, depth, c), c)
            else:
                cs = [c]
            for c2 in cs:
                for o in self.exec_block(s.body, c2):
                    if o[1] in ("fall", "continue"):
                        ends.append(o[0])
                    elif o[1] == "break":
                        breaks.append(o[0])
                    else:
                        rets.append(o)
        # while-loop counters become range elements
        mapping = {}
        if isinstance(s, ast.While) and ends:
            mapping = self.counter_pattern(s, pre, lvs, ends, itt)
        elif isinstance(s, ast.For) and ends:
            mapping = self.for_counters(lvs, ends, itt, depth, st)
        res = self.summarise(s, pre, itt, depth, lvs, alv, ends, breaks, names, tnames, mapping)
        outs = []
        for o in rets:
            o[0].loops = pre.loops
            outs.append((self.fixstate(o[0], mapping), o[1], subst(o[2], mapping) if mapping else o[2], o[3]))
        if isinstance(s, ast.While) and is_true_const(s.test) and not breaks:
            return outs
        if s.orelse and not breaks:
            outs.extend(self.exec_block(s.orelse, res))
        else:
            outs.append((res, "fall", NONE, self.where(s)))
        return outs

    def fixstate(self, st, mapping):
        if mapping:
            for n, v in st.env.items():
                st.env[n] = subst(v, mapping)
        return st

    def counter_pattern(self, s, pre, lvs, ends, itt):
        conds = itt.args[0]
        out = {}
        for n, lv in lvs.items():
            step1 = mk("bin", "+", lv, const(1))
            step2 = mk("bin", "+", const(1), lv)
            if not all(e.env.get(n) in (step1, step2) for e in ends):
                continue
            for c, v in conds:
                if v and c.op == "cmp" and c.args[0] in ("<", "<=") and c.args[1] is lv \
                        and lv not in set(walk(c.args[2])):
                    hi = c.args[2]
                    if c.args[0] == "<=":
                        hi = mk("bin", "+", hi, const(1))
                    init = lv.args[1]
                    a = ((0, hi),) if init is const(0) else ((0, init), (1, hi))
                    rng = mk("call", mk("ext", "range"), a)
                    out[lv] = mk("elem", rng, lv.args[0])
                    out[itt] = rng
                    return out
                if not v and c.op == "cmp" and c.args[0] == "==" and lv in c.args[1:] and len(conds) == 1 and \
                        lv.args[1] in (const(0), const(1)):
                    hi = c.args[2] if c.args[1] is lv else c.args[1]
                    if any(x.op == "lv" for x in walk(hi)):
                        continue
                    a = ((0, hi),) if lv.args[1] is const(0) else ((0, lv.args[1]), (1, hi))
                    rng = mk("call", mk("ext", "range"), a)
                    out[lv] = mk("elem", rng, lv.args[0])
                    out[itt] = rng
                    return out
        return out

    def for_counters(self, lvs, ends, itt, depth, st):
        """variables stepped by one in every iteration of a for loop are its index"""
        out = {}
        for n, lv in lvs.items():
            if is_const(lv.args[1]) and isinstance(cval(lv.args[1]), int) and not isinstance(cval(lv.args[1]), bool) and \
                    all(e.env.get(n) in (mk("bin", "+", lv, const(1)), mk("bin", "+", const(1), lv)) for e in ends):
                ix = self.elem(mk("call", mk("ext", "enumerate"), ((0, itt),)), depth, st)
                if ix.op == "tuple":
                    out[lv] = ix.args[0] if lv.args[1] is const(0) else mk("bin", "+", ix.args[0], lv.args[1])
        return out

    def summarise(self, s, pre, itt, depth, lvs, alv, ends, breaks, names, tnames, mapping):
        res = pre.fork()
        allends = ends + breaks
        nb = len(pre.conds)
        if not allends:
            return res
        it2 = mapping.get(itt, itt)

        def rel(c):
            return tuple((self.sub(x, mapping), v) for x, v in c.conds[nb:])

        if isinstance(s, ast.While):
            # drop the loop test from the relative conditions
            wc = set(itt.args[0])

            def rel(c):
                return tuple((self.sub(x, mapping), v) for x, v in c.conds[nb:] if (x, v) not in wc)
        for c in breaks:
            self.breaks.append((self.fn.qual if self.fn else "?", it2, depth, rel(c),
                                {n: self.sub(self.reify(c.env[n], c), mapping) for n in names if n in c.env}))
        # heap objects existing before
        for oid, o in pre.heap.items():
            new = []
            plain = True
            for c in allends:
                o2 = c.heap.get(oid)
                if o2 is None or o2 is o:
                    continue
                pl = len(o.entries)
                if o2.entries[:pl] == o.entries:
                    for e in o2.entries[pl:]:
                        for x in [z for y in walk(e, set()) for z in self.origin.get(y, ()) or (y,)]:
                            if x.op == "obj" and x in pre.heap and x is not oid and c.heap.get(x) is not pre.heap[x]:
                                # every iteration stores the same, changing object
                                self.shared.add((self.fn.qual if self.fn else "?", pre.heap[x].kind))
                        e = self.sub(self.reify(e, c), mapping)
                        t = mk("each", it2, depth, rel(c), e)
                        if o2.base is FRONT and o.base is not FRONT:
                            t = mk("star", mk("call", mk("ext", "reversed"), ((0, mk("list", t)),)))
                        new.append(t)
                else:
                    new.append(mk("star", mk("unknown", "loopheap", depth)))
            if new:
                res.heap[oid] = Obj(o.kind, o.entries + tuple(dedupe(self.simplify_each(new, allends, nb))), o.base)
        # new heap objects
        for c in allends:
            for oid, o in c.heap.items():
                if oid not in pre.heap:
                    res.heap.setdefault(oid, Obj(o.kind, tuple(self.sub(e, mapping) for e in o.entries), o.base))
        for n in sorted(names | tnames):
            vals = []
            same = True
            for c in allends:
                v = c.env.get(n)
                if v is None:
                    continue
                if n in pre.env and (v is lvs.get(n) or v is pre.env[n]):
                    v = lvs.get(n, v)
                else:
                    same = False
                ent = (rel(c), self.sub(self.reify(v, c), mapping))
                vals.append(ent)
            if same and n in pre.env:
                continue
            vals = self.simplify_vals(vals)
            if n in pre.env and n not in tnames:
                init = self.reify(pre.env[n], pre)
                lv = self.sub(lvs.get(n, init), {})
                res.env[n] = mk("fold", it2, depth, lv, init, tuple(vals))
            else:
                res.env[n] = mk("last", it2, depth, tuple(vals))
        akeys = set()
        for c in allends:
            for k, v in c.attrs.items():
                if pre.attrs.get(k) is not v:
                    akeys.add(k)
        for k in akeys:
            vals = []
            same = True
            for c in allends:
                v = c.attrs.get(k, mk("attr", k[0], k[1]))
                if v is not alv.get(k):
                    same = False
                vals.append((rel(c), self.sub(self.reify(v, c), mapping)))
            if same:
                continue
            init = self.reify(pre.attrs.get(k, mk("attr", k[0], k[1])), pre)
            lv = alv.get(k, init)
            res.attrs[k] = mk("fold", it2, depth, lv, init, tuple(self.simplify_vals(vals)))
        evs = list(pre.events)
        seen = {e.key() + (e.conds,) for e in evs}
        for c in allends:
            for e in c.events[len(pre.events):]:
                k = e.key() + (e.conds,)
                if k not in seen:
                    seen.add(k)
                    if mapping:
                        e = Event(e.kind, self.sub(e.term, mapping), e.where,
                                  tuple((self.sub(x, mapping), v) for x, v in e.conds),
                                  tuple(self.sub(x, mapping) for x in e.loops), e.fn, self.sub(e.extra, mapping))
                    evs.append(e)
        res.events = tuple(evs)
        return res

    def simplify_each(self, new, allends, nb):
        # the same entry on complementary branches: drop the condition
        groups = {}
        for e in new:
            groups.setdefault((e.args[0], e.args[1], e.args[3]) if e.op == "each" else e, []).append(e)
        out = []
        done = set()
        for e in new:
            if e.op != "each":
                out.append(e)
                continue
            k = (e.args[0], e.args[1], e.args[3])
            if k in done:
                continue
            g = groups[k]
            done.add(k)
            conds = merge_conds([x.args[2] for x in g])
            for cs in conds:
                out.append(mk("each", k[0], k[1], cs, k[2]))
        return out

    def simplify_vals(self, vals):
        groups = {}
        order = []
        for cs, v in vals:
            if v not in groups:
                order.append(v)
            groups.setdefault(v, []).append(cs)
        out = []
        for v in order:
            for cs in merge_conds(groups[v]):
                out.append((cs, v))
        return dedupe(out)

    def sub(self, t, mapping):
        if not mapping or t is None:
            return t
        return subst(t, mapping)

    # ------------------------------------------------------------ expressions
    def evals(self, exprs, st):
        outs = [([], st)]
        for e in exprs:
            nxt = []
            for vs, c in outs:
                for v, d in self.eval(e, c):
                    nxt.append((vs + [v], d))
            outs = nxt
        return outs

    def eval(self, e, st):
        m = getattr(self, "eval_" + type(e).__name__, None)
        if m is None:
            return [(self.fresh(type(e).__name__), st)]
        r = m(e, st)
        return r

    def eval_Constant(self, e, st):
        v = e.value
        if v is Ellipsis:
            return [(mk("ext", "Ellipsis"), st)]
        if isinstance(v, complex):
            return [(mk("ext", "complex:%r" % v), st)]
        return [(const(v), st)]

    def eval_Name(self, e, st):
        return [(self.lookup(e.id, st), st)]

    def lookup(self, name, st):
        if name in st.env:
            return st.env[name]
        m = self.module
        r = self.p.resolve(m, name)
        if r is not None:
            return self.lift(r, name)
        if name in BUILTINS:
            return mk("ext", name)
        return mk("undef", name)

    def lift(self, r, name):
        if isinstance(r, Module):
            return mk("mod", r.name)
        if isinstance(r, ClassInfo):
            return mk("class", r.qual)
        if isinstance(r, FuncInfo):
            return mk("func", r.qual)
        if isinstance(r, tuple) and r[0] == "ext":
            return mk("ext", r[1])
        if isinstance(r, tuple) and r[0] == "assign":
            return self.global_value(r[1], r[2])
        return mk("undef", name)

    def global_value(self, m, name):
        ent = m.names.get(name)
        e = ent[1] if isinstance(ent, tuple) and ent[0] == "assign" else None
        if isinstance(e, ast.Constant) and not isinstance(e.value, (complex, type(Ellipsis))):
            # only when assigned once
            return const(e.value)
        return mk("global", m.name, name)

    def eval_Attribute(self, e, st):
        outs = []
        for b, c in self.eval(e.value, st):
            outs.extend(self.getattr(b, e.attr, c, e))
        return outs

    def getattr(self, b, name, st, node):
        r = self.policy.attr(self, b, name, st)
        if r is not None:
            return [(r, st)]
        if b.op == "mod":
            x = self.p.member(self.p.modules[b.args[0]], name)
            if x is None:
                return [(mk("undef", b.args[0] + "." + name), st)]
            return [(self.lift(x, name), st)]
        if b.op == "ext":
            full = b.args[0] + "." + name
            return [(mk("ext", full), st)]
        if (b, name) in st.attrs:
            return [(st.attrs[(b, name)], st)]
        if b.op == "class":
            ci = self.p.cls(b.args[0])
            f = ci.lookup(name) if ci else None
            if f is not None:
                return [(mk("cbound", b, f.qual) if f.is_classmethod else mk("func", f.qual), st)]
            ca = ci.lookup_attr(name) if ci else None
            if ca is not None and isinstance(ca[1], ast.Constant):
                return [(const(ca[1].value), st)]
            return [(mk("attr", b, name), st)]
        if b.op == "super":
            f = self.super_lookup(b, name)
            if f is not None:
                return [(mk("bound", b.args[1], f.qual), st)]
            return [(mk("attr", b, name), st)]
        ty = self.type_of(b, st)
        if ty is not None:
            f = ty.lookup(name)
            if f is not None:
                if f.is_property:
                    if self.can_inline(f) and self.policy.inline_property(self, f, b, len(self.stack)):
                        return self.call_func(f, [b], {}, st, node, recv=b)
                    t = mk("attr", self.reify(b, st), name)
                    self.event(st, "getprop", t, node)
                    return [(t, st)]
                if f.is_static:
                    return [(mk("func", f.qual), st)]
                return [(mk("bound", b, f.qual), st)]
            ca = ty.lookup_attr(name)
            if ca is not None and isinstance(ca[1], ast.Constant) and not isinstance(ca[1].value, complex):
                if not self.instance_assigns(ty, name):
                    return [(const(ca[1].value), st)]
        if b.op == "obj":
            return [(mk("attr", b, name), st)]
        return [(mk("attr", b, name), st)]

    def instance_assigns(self, ty, name):
        for c in ty.mro():
            for f in c.methods.values():
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                        return True
        return False

    def super_lookup(self, b, name):
        cq, selft = b.args
        ci = self.p.cls(cq)
        ty = self.self_cls if selft is getattr(self, "self_term", None) else ci
        if ty is None or ci is None:
            return None
        return ty.lookup(name, after=ci)

    def eval_Subscript(self, e, st):
        outs = []
        for (b, k), c in self.evals([e.value, e.slice], st):
            es = self.dispatch(b, k, c)
            if es is not None:
                outs.extend(self.table_forks(es, k, c))
                continue
            outs.append((self.getitem(b, k, c), c))
        return outs

    def dispatch(self, b, k, st):
        """entries of a table of functions that is indexed with an unknown key"""
        if is_const(k):
            return None
        if b.op == "obj" and b in st.heap and st.heap[b].kind == "dict":
            es = [(e.args[0], e.args[1]) if e.op == "kv" else None for e in st.heap[b].entries]
        elif b.op == "global":
            m = self.p.modules.get(b.args[0])
            ent = m.names.get(b.args[1]) if m is not None else None
            d = ent[1] if isinstance(ent, tuple) and ent[0] == "assign" else None
            if not isinstance(d, ast.Dict) or self.p.rebound(m, b.args[1]):
                return None
            es = []
            for x, v in zip(d.keys, d.values):
                r = self.p.resolve(m, v.id) if isinstance(v, ast.Name) else None
                if not isinstance(x, ast.Constant) or r is None:
                    return None
                es.append((const(x.value), self.lift(r, v.id)))
        else:
            return None
        if not es or len(es) > 16 or None in es:
            return None
        if not all(is_const(x) and v.op in ("func", "class", "closure", "bound", "cbound") for x, v in es):
            return None
        return es

    def table_forks(self, es, k, st, default=None):
        k = self.reify(k, st)
        outs, rest = [], [st]
        for x, v in es:
            p, q = sorted([k, x], key=skey)
            t = self.fold_cmp(mk("cmp", "==", p, q))
            nxt = []
            for s in rest:
                a, b = self.branch_term(t, s)
                outs.extend((v, y) for y in a)
                nxt.extend(b)
            rest = nxt
        if default is not None:
            outs.extend((default, y) for y in rest)
        return outs

    def getitem(self, b, k, st):
        if b.op == "obj" and b in st.heap:
            o = st.heap[b]
            if o.kind == "list" and is_const(k) and isinstance(cval(k), int):
                ents = o.entries
                i = cval(k)
                if not any(e.op in ("each", "star", "set") for e in ents):
                    if -len(ents) <= i < len(ents):
                        return ents[i]
                elif i < 0 and ents and all(x.op not in ("each", "star", "set") for x in ents[i:]) and len(ents) >= -i:
                    return ents[i]
                elif i >= 0 and len(ents) > i and all(x.op not in ("each", "star", "set") for x in ents[:i + 1]) \
                        and not any(x.op == "set" for x in ents):
                    return ents[i]
            if o.kind == "dict" and is_const(k):
                for e in reversed(o.entries):
                    if e.op == "kv" and e.args[0] is k:
                        return e.args[1]
                    if e.op != "kv" or not is_const(e.args[0]):
                        break
            return item(self.reify(b, st), self.reify(k, st))
        if b.op == "upd" and b.args[1] is self.reify(k, st):
            return b.args[2]
        return item(self.reify(b, st) if b.op != "obj" else b, self.reify(k, st))

    def eval_Index(self, e, st):
        return self.eval(e.value, st)

    def eval_Slice(self, e, st):
        parts = [x if x is not None else ast.Constant(value=None) for x in (e.lower, e.upper, e.step)]
        return [(mk("slice", *[self.reify(v, c) for v in vs]), c) for vs, c in self.evals(parts, st)]

    def eval_Tuple(self, e, st):
        outs = []
        for vs, c in self.evals(e.elts, st):
            flat = []
            for v in vs:
                if v.op == "star":
                    s = self.known_seq(v.args[0], c)
                    if s is not None:
                        flat.extend(s)
                        continue
                flat.append(v)
            outs.append((mk("tuple", *flat), c))
        return outs

    def eval_Starred(self, e, st):
        return [(mk("star", v), c) for v, c in self.eval(e.value, st)]

    def eval_List(self, e, st):
        outs = []
        for vs, c in self.evals(e.elts, st):
            flat = []
            for v in vs:
                if v.op == "star":
                    s = self.known_seq(v.args[0], c)
                    if s is not None:
                        flat.extend(s)
                        continue
                flat.append(v)
            outs.append((self.alloc(c, "list", flat), c))
        return outs

    def eval_Set(self, e, st):
        return [(self.alloc(c, "set", vs), c) for vs, c in self.evals(e.elts, st)]

    def eval_Dict(self, e, st):
        keys = [k if k is not None else ast.Constant(value=None) for k in e.keys]
        outs = []
        for vs, c in self.evals(keys + e.values, st):
            ks, xs = vs[:len(keys)], vs[len(keys):]
            ents = []
            for i, k in enumerate(ks):
                ents.append(mk("kv", k, xs[i]) if e.keys[i] is not None else mk("star", xs[i]))
            outs.append((self.alloc(c, "dict", ents), c))
        return outs

    def eval_BinOp(self, e, st):
        op = BINOPS.get(type(e.op), "?")
        return [(self.binop(op, a, b, c), c) for (a, b), c in self.evals([e.left, e.right], st)]

    def binop(self, op, a, b, st):
        if is_const(a) and is_const(b) and isinstance(cval(a), (int, float, str)) and isinstance(cval(b), (int, float, str)):
            try:
                x, y = cval(a), cval(b)
                if op == "+":
                    return const(x + y)
                if op == "-":
                    return const(x - y)
                if op == "*" and not isinstance(x, str) and not isinstance(y, str):
                    return const(x * y)
                if op == "/" and y != 0:
                    return const(x / y)
                if op == "//" and y != 0:
                    return const(x // y)
                if op == "**" and not isinstance(x, str) and abs(y) < 16:
                    return const(x ** y)
            except (TypeError, OverflowError):
                pass
        if op == "+":
            if a.op == "tuple" and b.op == "tuple":
                return mk("tuple", *(a.args + b.args))
            ea, eb = self.list_entries(a, st), self.list_entries(b, st)
            if ea is not None and eb is not None and (a.op == "obj" or b.op == "obj"):
                return self.alloc(st, "list", ea + eb)
        return mk("bin", op, self.reify(a, st), self.reify(b, st))

    def list_entries(self, t, st):
        if t.op == "obj" and t in st.heap and st.heap[t].kind == "list":
            return st.heap[t].entries
        if t.op == "list":
            return t.args
        return None

    def eval_UnaryOp(self, e, st):
        outs = []
        for v, c in self.eval(e.operand, st):
            if isinstance(e.op, ast.Not):
                outs.append((neg(v), c))
                continue
            op = UNOPS[type(e.op)]
            if is_const(v) and isinstance(cval(v), (int, float)) and not isinstance(cval(v), bool):
                outs.append((const(-cval(v) if op == "-" else (cval(v) if op == "+" else ~cval(v))), c))
            else:
                outs.append((mk("un", op, self.reify(v, c)), c))
        return outs

    def eval_BoolOp(self, e, st):
        op = "and" if isinstance(e.op, ast.And) else "or"
        outs = []
        # evaluated left to right; later operands are recorded under the earlier
        # operands' truth value
        cur = [([], st)]
        for i, x in enumerate(e.values):
            nxt = []
            for vs, c in cur:
                saved = c.conds
                if vs:
                    c.conds = c.conds + ((self.reify(vs[-1], c), op == "and"),)
                for v, d in self.eval(x, c):
                    d.conds = saved if d.conds[:len(saved)] == saved and len(d.conds) <= len(saved) + 1 else \
                        tuple(q for j, q in enumerate(d.conds) if not (j == len(saved) and vs))
                    nxt.append((vs + [self.reify(v, d) if v.op != "obj" else v], d))
            cur = nxt
        for vs, c in cur:
            outs.append((self.boolop(op, vs, c), c))
        return outs

    def boolop(self, op, vs, st):
        out = []
        for v in vs:
            if v.op == op:
                out.extend(v.args)
            else:
                out.append(v)
        res = []
        for i, v in enumerate(out):
            d = self.decide(v, st) if v.op != "param" else None
            if d is not None and v.op in ("const", "cmp", "not", "isnone", "isinstance", "hasattr", "obj", "tuple"):
                if op == "and":
                    if d is False:
                        res.append(v)
                        break
                    if i < len(out) - 1:
                        continue
                else:
                    if d is True:
                        res.append(v)
                        break
                    if i < len(out) - 1:
                        continue
            res.append(v)
        if len(res) == 1:
            return res[0]
        return mk(op, *[self.reify(r, st) for r in res])

    def eval_Compare(self, e, st):
        outs = []
        for vs, c in self.evals([e.left] + e.comparators, st):
            ts = [self.compare(op, vs[i], vs[i + 1], c) for i, op in enumerate(e.ops)]
            outs.append((ts[0] if len(ts) == 1 else self.boolop("and", ts, c), c))
        return outs

    def compare(self, op, a, b, st):
        heap_none = (a is NONE or b is NONE)
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b is NONE or a is NONE:
                t = mk("isnone", a if b is NONE else b)
                if t.args[0].op == "obj" or t.args[0].op in ("new", "tuple"):
                    t = FALSE
                elif t.args[0] is NONE:
                    t = TRUE
                elif t.args[0].op == "const":
                    t = FALSE
            else:
                x, y = sorted([self.reify(a, st), self.reify(b, st)], key=skey)
                t = mk("is", x, y)
                if x is y and x.op in ("const", "class", "typeof"):
                    t = TRUE
                elif x.op == "class" and y.op == "class":
                    t = TRUE if x is y else FALSE
            return neg(t) if isinstance(op, ast.IsNot) else t
        if isinstance(op, (ast.In, ast.NotIn)) and b.op == "global":
            es = self.dispatch(b, a, st)
            if es is not None:
                b = mk("dict", *[mk("kv", x, v) for x, v in es])
        a, b = self.reify(a, st), self.reify(b, st)
        if isinstance(op, ast.Gt):
            return self.fold_cmp(mk("cmp", "<", b, a))
        if isinstance(op, ast.GtE):
            return self.fold_cmp(mk("cmp", "<=", b, a))
        if isinstance(op, ast.Lt):
            return self.fold_cmp(mk("cmp", "<", a, b))
        if isinstance(op, ast.LtE):
            return self.fold_cmp(mk("cmp", "<=", a, b))
        if isinstance(op, (ast.Eq, ast.NotEq)) and heap_none and not (a is NONE and b is NONE):
            x = b if a is NONE else a
            t = FALSE if x.op in ("const", "new", "tuple", "list", "dict") else mk("isnone", x)
            return neg(t) if isinstance(op, ast.NotEq) else t
        if isinstance(op, (ast.Eq, ast.NotEq)):
            x, y = sorted([a, b], key=skey)
            t = self.fold_cmp(mk("cmp", "==", x, y))
            return neg(t) if isinstance(op, ast.NotEq) else t
        if isinstance(op, (ast.In, ast.NotIn)):
            t = mk("in", a, b)
            if b.op == "dict" and is_const(a) and all(e.op == "kv" and is_const(e.args[0]) for e in b.args):
                t = const(any(e.args[0] is a for e in b.args))
            elif b.op == "dict" and is_const(a) and any(e.op == "kv" and e.args[0] is a for e in b.args):
                t = TRUE
            if b.op == "dict" and 0 < len(b.args) <= 16 and not is_const(a) and all(
                    x.op == "kv" and is_const(x.args[0]) and x.args[1].op in ("func", "class", "closure", "bound", "cbound")
                    for x in b.args):
                alts = []
                for x in b.args:
                    p, q = sorted([a, x.args[0]], key=skey)
                    alts.append(self.fold_cmp(mk("cmp", "==", p, q)))
                t = self.boolop("or", alts, st)
            if b.op == "tuple" and 0 < len(b.args) <= 6 and not any(x.op == "star" for x in b.args):
                alts = []
                for x in b.args:
                    p, q = sorted([a, x], key=skey)
                    alts.append(self.fold_cmp(mk("cmp", "==", p, q)))
                t = self.boolop("or", alts, st)
            return neg(t) if isinstance(op, ast.NotIn) else t
        return self.fresh("cmp")

    def fold_cmp(self, t):
        o, a, b = t.args
        if is_const(a) and is_const(b):
            try:
                x, y = cval(a), cval(b)
                return const(bool(x == y if o == "==" else (x < y if o == "<" else x <= y)))
            except TypeError:
                return t
        return t

    def eval_IfExp(self, e, st):
        a, b = self.branch(e.test, st)
        outs = []
        for c in a:
            outs.extend(self.eval(e.body, c))
        for c in b:
            outs.extend(self.eval(e.orelse, c))
        return outs

    def eval_Lambda(self, e, st):
        return [(self.closure(e, st), st)]

    def eval_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(v.value)
        outs = []
        for vs, c in self.evals(parts, st):
            outs.append((mk("fstr", *[self.reify(v, c) for v in vs]), c))
        return outs

    def eval_NamedExpr(self, e, st):
        outs = []
        for v, c in self.eval(e.value, st):
            c.env[e.target.id] = v
            outs.append((v, c))
        return outs

    def eval_Yield(self, e, st):
        outs = self.do_yield(e, st)
        return [(mk("unknown", "sent"), o[0]) for o in outs]

    def eval_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def eval_GeneratorExp(self, e, st):
        return self.comp(e, st, "list")

    def eval_SetComp(self, e, st):
        return self.comp(e, st, "set")

    def eval_DictComp(self, e, st):
        return self.comp(e, st, "dict")

    def comp(self, e, st, kind):
        oid = self.alloc(st, kind)
        inner_names = set()
        for g in e.generators:
            inner_names |= target_names(g.target)
        saved = {n: st.env.get(n) for n in inner_names}
        if kind == "dict":
            leaf = ast.Expr(value=ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()))
        else:
            leaf = ast.Expr(value=e.elt)
        outs = self.comp_level(e, e.generators, oid, kind, st)
        for c in outs:
            for n, v in saved.items():
                if v is None:
                    c.env.pop(n, None)
                else:
                    c.env[n] = v
        return [(oid, c) for c in outs]

    def comp_level(self, e, gens, oid, kind, st):
        if not gens:
            outs = []
            if kind == "dict":
                for (k, v), c in self.evals([e.key, e.value], st):
                    o = c.heap[oid]
                    c.heap[oid] = Obj(kind, o.entries + (mk("kv", k, v),))
                    outs.append(c)
            else:
                for v, c in self.eval(e.elt, st):
                    o = c.heap[oid]
                    c.heap[oid] = Obj(kind, o.entries + (v,))
                    outs.append(c)
            return outs
        g = gens[0]
        outs = []
        for it, c in self.eval(g.iter, st):
            seq = self.known_seq(it, c)
            if seq is not None:
                cur = [c]
                for x in seq:
                    nxt = []
                    for d in cur:
                        for d2 in self.assign(g.target, x, d):
                            ts, fs = [d2], []
                            for cond in g.ifs:
                                nt = []
                                for q in ts:
                                    a, b = self.branch(cond, q)
                                    nt.extend(a)
                                    fs.extend(b)
                                ts = nt
                            for q in ts:
                                nxt.extend(self.comp_level(e, gens[1:], oid, kind, q))
                            nxt.extend(fs)
                    cur = nxt
                outs.extend(cur)
                continue
            depth = len(c.loops)
            itt = self.reify(it, c)
            pre = c.fork()
            body = c.fork()
            body.loops = pre.loops + (itt,)
            body.heap[oid] = Obj(kind, ())
            ends = []
            for d in self.assign(g.target, self.elem(it, depth, body), body):
                ts, fs = [d], []
                for cond in g.ifs:
                    nt = []
                    for q in ts:
                        a, b = self.branch(cond, q)
                        nt.extend(a)
                        fs.extend(b)
                    ts = nt
                for q in ts:
                    ends.extend((x, True) for x in self.comp_level(e, gens[1:], oid, kind, q))
                ends.extend((x, False) for x in fs)
            new = []
            nb = len(pre.conds)
            evs = list(pre.events)
            seen = set()
            for d, ok in ends:
                rel = d.conds[nb:]
                for x in d.heap[oid].entries:
                    new.append(mk("each", itt, depth, tuple(rel), self.reify(x, d)))
                for ev in d.events[len(pre.events):]:
                    if ev.key() + (ev.conds,) not in seen:
                        seen.add(ev.key() + (ev.conds,))
                        evs.append(ev)
            pre.events = tuple(evs)
            o = pre.heap[oid]
            pre.heap[oid] = Obj(kind, o.entries + tuple(self.simplify_each(new, None, nb)))
            outs.append(pre)
        return outs

    # ------------------------------------------------------------ calls
    def eval_Call(self, e, st):
        outs = []
        f = e.func
        # super()
        if isinstance(f, ast.Name) and f.id == "super" and "super" not in st.env:
            if e.args:
                for vs, c in self.evals(e.args, st):
                    if len(vs) == 2 and vs[0].op == "class":
                        outs.append((mk("super", vs[0].args[0], vs[1]), c))
                    else:
                        outs.append((self.fresh("super"), c))
                return outs
            fn = self.fn
            if fn.cls is not None and fn.pos:
                return [(mk("super", fn.cls.qual, st.env.get(fn.pos[0], mk("param", fn.pos[0]))), st)]
            return [(self.fresh("super"), st)]
        for fv, c in self.eval(f, st):
            arglist = [a for a in e.args]
            kwl = e.keywords
            for vs, d in self.evals(arglist + [k.value for k in kwl], c):
                pos = []
                for v in vs[:len(arglist)]:
                    if v.op == "star":
                        s = self.known_seq(v.args[0], d)
                        if s is not None:
                            pos.extend(s)
                            continue
                    pos.append(v)
                kw = []
                for k, v in zip(kwl, vs[len(arglist):]):
                    kw.append((k.arg, v))
                outs.extend(self.call(fv, pos, kw, d, e))
        return outs

    def expand_kwargs(self, kw, st):
        """Expand known **dicts. -> (dict, [unknown ** terms])"""
        out, rest = {}, []
        for k, v in kw:
            if k is not None:
                out[k] = v
                continue
            ents = None
            if v.op == "obj" and v in st.heap and st.heap[v].kind == "dict":
                ents = st.heap[v].entries
            elif v.op == "dict":
                ents = v.args
            if ents is not None and all(x.op == "kv" and is_const(x.args[0]) for x in ents):
                for x in ents:
                    out[cval(x.args[0])] = x.args[1]
            elif ents is not None:
                for x in ents:
                    if x.op == "kv" and is_const(x.args[0]):
                        out[cval(x.args[0])] = x.args[1]
                    elif x.op == "star":
                        rest.append(x.args[0])
                    else:
                        rest.append(mk("dict", x))
            else:
                rest.append(v)
        return out, rest

    def call(self, fv, pos, kw, st, node):
        kwd, rest = self.expand_kwargs(kw, st)
        r = self.policy.call(self, fv, (pos, kwd, rest), st)
        if r is not None:
            if isinstance(r, T):
                self.event(st, "call", self.reify(r, st), node)
                return [(r, st)]
            return r
        op = fv.op
        if op == "class":
            return [(self.construct(fv, pos, kwd, rest, st, node), st)]
        if op == "typeof":
            ty = self.type_of(fv.args[0], st)
            if ty is not None:
                return [(self.construct(mk("class", ty.qual), pos, kwd, rest, st, node), st)]
            return [(self.construct(fv, pos, kwd, rest, st, node), st)]
        if op == "func":
            f = self.p.func(fv.args[0])
            if f is not None:
                if f.is_classmethod:
                    pos = [mk("class", f.cls.qual)] + pos
                return self.call_func(f, pos, kwd, st, node, rest=rest)
        if op == "cbound":
            f = self.p.func(fv.args[1])
            if f is not None:
                return self.call_func(f, [fv.args[0]] + pos, kwd, st, node, rest=rest)
        if op == "bound":
            f = self.p.func(fv.args[1])
            if f is not None:
                return self.call_func(f, [fv.args[0]] + pos, kwd, st, node, recv=fv.args[0], rest=rest)
        if op == "closure":
            return self.call_closure(fv, pos, kwd, st, node, rest)
        if op == "ext":
            r = self.builtin(fv.args[0], pos, kwd, rest, st, node)
            if r is not None:
                return r
        if op == "attr":
            base, name = fv.args
            if name == "get" and 1 <= len(pos) <= 2 and not kwd and not rest:
                es = self.dispatch(base, pos[0], st)
                if es is not None:
                    return self.table_forks(es, pos[0], st, pos[1] if len(pos) == 2 else NONE)
            r = self.method_builtin(base, name, pos, kwd, rest, st, node)
            if r is not None:
                return r
            f = self.policy.resolve_method(self, base, name, st)
            if f is not None:
                return self.call_func(f, [base] + pos, kwd, st, node, recv=base, rest=rest)
            args = self.norm_args_by_name(name, pos, kwd, rest, st)
            t = mk("mcall", self.reify(base, st), name, args)
            self.event(st, "mcall", t, node, extra=(base,))
            return [(t, st)]
        args = self.plain_args(pos, kwd, rest, st)
        t = mk("call", self.reify(fv, st), args)
        objs = {v for v in list(pos) + list(kwd.values()) if isinstance(v, T) and v.op == "obj"}
        if objs:
            self.origin[t] = self.origin.get(t, set()) | objs
        self.event(st, "call", t, node)
        return [(t, st)]

    def plain_args(self, pos, kwd, rest, st):
        out = [(i, self.reify(v, st)) for i, v in enumerate(pos)]
        out += [(k, self.reify(v, st)) for k, v in sorted(kwd.items())]
        out += [("**", self.reify(v, st)) for v in rest]
        return tuple(out)

    def norm_args_by_name(self, name, pos, kwd, rest, st):
        fs = [f for f in self.p.by_method.get(name, []) if not f.is_static and not f.is_property]
        named = dict(kwd)
        remain = []
        fits = [f for f in fs if len(pos) < len(f.pos) or f.vararg]
        if fits and name not in ("get", "pop", "index", "count", "copy", "update") and \
                not any(v.op == "star" for v in pos):
            fs = fits
            for i, v in enumerate(pos):
                ns = {f.pos[i + 1] if len(f.pos) > i + 1 else None for f in fs}
                if len(ns) == 1 and None not in ns:
                    named[next(iter(ns))] = v
                else:
                    remain.append((i, v))
        else:
            remain = list(enumerate(pos))
        out = [(i, self.reify(v, st)) for i, v in remain]
        out += [(k, self.reify(v, st)) for k, v in sorted(named.items())]
        out += [("**", self.reify(v, st)) for v in rest]
        return tuple(out)

    def bind(self, f, pos, kwd, rest, skip_self=False, drop_default=True):
        """Normalise arguments to parameter names -> ordered list of pairs."""
        params = f.pos[1:] if skip_self else f.pos
        out = {}
        extra = []
        if any(v.op == "star" for v in pos):
            i = 0
            for v in pos:
                if v.op == "star":
                    break
                if i < len(params):
                    out[params[i]] = v
                i += 1
            extra = [(j, v) for j, v in enumerate(pos) if j >= i]
        else:
            for i, v in enumerate(pos):
                if i < len(params):
                    out[params[i]] = v
                else:
                    extra.append((i, v))
        out.update(kwd)
        return out, extra

    def construct(self, ct, pos, kwd, rest, st, node):
        ci = self.p.cls(ct.args[0]) if ct.op == "class" else None
        if ci is None and ct.op == "typeof":
            # all candidate classes agree on the first parameter usually
            args = self.plain_args(pos, kwd, rest, st)
        else:
            init = ci.lookup("__init__") if ci else None
            if init is None:
                args = self.plain_args(pos, kwd, rest, st)
            else:
                b, extra = self.bind(init, pos, kwd, rest, skip_self=True)
                if init.vararg and extra:
                    pass
                args = tuple((k, self.reify(v, st)) for k, v in extra) + \
                    tuple((k, self.reify(v, st)) for k, v in sorted(b.items())) + \
                    tuple(("**", self.reify(v, st)) for v in rest)
        t = mk("new", ct, args)
        self.event(st, "new", t, node)
        return t

    def can_inline(self, f):
        if len(self.stack) > self.policy.max_depth:
            return False
        if any(x[0] is f for x in self.stack):
            return False
        return True

    def call_func(self, f, pos, kwd, st, node, recv=None, rest=()):
        if not (self.can_inline(f) and self.policy.inline(self, f, recv, len(self.stack))):
            return [(self.opaque(f, pos, kwd, rest, st, node, recv), st)]
        env = {}
        params = f.pos
        if any(v.op == "star" for v in pos):
            return [(self.opaque(f, pos, kwd, rest, st, node, recv), st)]
        if rest and not f.kwarg:
            return [(self.opaque(f, pos, kwd, rest, st, node, recv), st)]
        b, extra = self.bind(f, pos, kwd, rest)
        if extra and not f.vararg:
            return [(self.opaque(f, pos, kwd, rest, st, node, recv), st)]
        missing = []
        for n in params + f.kwonly:
            if n in b:
                env[n] = b.pop(n)
            elif n in f.defaults:
                env[n] = self.default(f, n, st)
            elif rest:
                env[n] = mk("item", self.reify(rest[0], st), const(n))
            else:
                return [(self.opaque(f, pos, kwd, rest, st, node, recv), st)]
        if f.vararg:
            env[f.vararg] = mk("tuple", *[v for _, v in extra])
        if f.kwarg:
            if rest and not b:
                env[f.kwarg] = rest[0] if len(rest) == 1 else self.alloc(st, "dict", [mk("star", r) for r in rest])
            else:
                env[f.kwarg] = self.alloc(st, "dict", [mk("star", r) for r in rest] +
                                          [mk("kv", const(k), v) for k, v in b.items()])
        elif b:
            return [(self.opaque(f, pos, kwd, rest, st, node, recv), st)]
        self.event(st, "enter", mk("func", f.qual), node)
        saved = st.env
        st.env = env
        outs = []
        for path in self.run_body(f, st):
            s = path.state
            if path.kind == "raise":
                # an exception propagates: recorded, the trace ends here
                s.env = dict(saved)
                self.pending_raise(s, path)
                continue
            s.env = dict(saved)
            outs.append((path.value, s))
        if len(outs) > self.policy.max_states:
            vals = dedupe([self.reify(v, s) for v, s in outs])
            j = self.join([s for _, s in outs])
            j.env = dict(saved)
            return [(mk("phi", *sorted(vals, key=skey)) if len(vals) > 1 else vals[0], j)]
        return outs

    def pending_raise(self, st, path):
        pass

    def default(self, f, n, st):
        d = f.defaults[n]
        self.stack.append((f, f.module))
        try:
            saved, st.env = st.env, {}
            r = self.eval(d, st)
            st.env = saved
            return r[0][0]
        finally:
            self.stack.pop()

    def opaque(self, f, pos, kwd, rest, st, node, recv):
        if recv is not None:
            b, extra = self.bind(f, pos, kwd, rest)
            if f.pos:
                b.pop(f.pos[0], None)
            args = tuple((k - 1, self.reify(v, st)) for k, v in extra) + \
                tuple((k, self.reify(v, st)) for k, v in sorted(b.items())) + \
                tuple(("**", self.reify(v, st)) for v in rest)
            t = mk("mcall", self.reify(recv, st), f.name, args)
            self.event(st, "mcall", t, node, extra=(recv,))
        else:
            b, extra = self.bind(f, pos, kwd, rest)
            args = tuple((k, self.reify(v, st)) for k, v in extra) + \
                tuple((k, self.reify(v, st)) for k, v in sorted(b.items())) + \
                tuple(("**", self.reify(v, st)) for v in rest)
            t = mk("call", mk("func", f.qual), args)
            self.event(st, "call", t, node)
        return t

    def call_closure(self, fv, pos, kwd, st, node, rest=()):
        cnode, cenv, frame = self.closures[fv]
        if any(getattr(x[0], "node", None) is cnode for x in self.stack) or len(self.stack) > self.policy.max_depth + 4 \
                or any(v.op == "star" for v in pos) or rest:
            t = mk("call", fv, self.plain_args(pos, kwd, rest, st))
            self.event(st, "call", t, node)
            return [(t, st)]
        a = cnode.args
        params = [x.arg for x in a.args] + [x.arg for x in a.kwonlyargs]
        env = dict(cenv)
        # late binding: enclosing variables still live in the caller's frame
        for k in cenv:
            if k in st.env:
                env[k] = st.env[k]
        for k, v in st.env.items():
            if k not in env and v.op == "closure":
                env[k] = v
        defaults = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
        named = dict(kwd)
        for i, v in enumerate(pos):
            if i < len(params):
                named[params[i]] = v
        for n in params:
            if n in named:
                env[n] = named[n]
            elif n in defaults:
                env[n] = self.eval(defaults[n], st)[0][0]
            else:
                env[n] = self.fresh("arg")
        if a.vararg:
            env[a.vararg.arg] = mk("tuple", *pos[len(params):])
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(st, "dict", [mk("kv", const(k), v) for k, v in kwd.items() if k not in params])
        saved = st.env
        st.env = env
        self.stack.append((_Clo(cnode, frame[0]), frame[1]))
        try:
            if isinstance(cnode, ast.Lambda):
                res = self.eval(cnode.body, st)
            else:
                if _is_gen(cnode):
                    st.env["<yield>"] = self.alloc(st, "list")
                res = []
                for s, sig, val, w in self.exec_block(cnode.body, st):
                    if sig == "raise":
                        continue
                    if "<yield>" in s.env and _is_gen(cnode):
                        val = s.env["<yield>"]
                    elif sig == "fall":
                        val = NONE
                    res.append((val, s))
        finally:
            self.stack.pop()
        outs = []
        for v, s in res:
            s.env = dict(saved)
            outs.append((v, s))
        return outs

    # ------------------------------------------------------------ builtins
    def list_append(self, st, oid, v):
        o = st.heap.get(oid)
        if o is not None:
            st.heap[oid] = Obj(o.kind, o.entries + (v,), o.base)

    def list_extend(self, st, oid, v):
        o = st.heap[oid]
        e = self.list_entries(v, st)
        if e is None and v.op == "tuple":
            e = v.args
        if e is None:
            e = (mk("star", self.reify(v, st)),)
        st.heap[oid] = Obj(o.kind, o.entries + tuple(e), o.base)

    def method_builtin(self, base, name, pos, kwd, rest, st, node):
        o = st.heap.get(base) if base.op == "obj" else None
        if o is None:
            return None
        if o.kind in ("list", "gen"):
            if name == "append" and len(pos) == 1:
                self.list_append(st, base, pos[0])
                return [(NONE, st)]
            if name == "extend" and len(pos) == 1:
                self.list_extend(st, base, pos[0])
                return [(NONE, st)]
            if name == "insert" and len(pos) == 2 and pos[0] is const(0):
                st.heap[base] = Obj(o.kind, (pos[1],) + o.entries, o.base if o.entries else FRONT)
                return [(NONE, st)]
            if name == "copy" and not pos:
                return [(self.alloc(st, "list", o.entries), st)]
            if name == "pop" and o.entries and o.entries[-1].op not in ("each", "star", "set") and \
                    (not pos or pos[0] is const(-1)):
                st.heap[base] = Obj(o.kind, o.entries[:-1], o.base)
                return [(o.entries[-1], st)]
            if name in ("sort", "reverse"):
                v = mk("call", mk("ext", "sorted" if name == "sort" else "reversed"), ((0, self.reify(base, st)),))
                st.heap[base] = Obj(o.kind, (mk("star", v),), o.base)
                return [(NONE, st)]
        if o.kind == "set":
            if name == "add":
                st.heap[base] = Obj(o.kind, o.entries + (pos[0],), o.base)
                return [(NONE, st)]
        if o.kind == "dict":
            if name == "get" and pos:
                k = pos[0]
                if is_const(k) and all(e.op == "kv" and is_const(e.args[0]) for e in o.entries):
                    for e in reversed(o.entries):
                        if e.args[0] is k:
                            return [(e.args[1], st)]
                    return [(pos[1] if len(pos) > 1 else NONE, st)]
                for e in reversed(o.entries):
                    if e.op == "kv" and e.args[0] is k:
                        return [(e.args[1], st)]
                    if e.op != "kv":
                        break
            if name == "setdefault" and pos:
                k = pos[0]
                if any(e.op == "kv" and e.args[0] is k for e in o.entries):
                    return None
                d = pos[1] if len(pos) > 1 else NONE
                st.heap[base] = Obj("dict", (mk("kv", k, d),) + o.entries, o.base)
                return [(mk("unknown", "setdefault", st and len(st.events)), st)] if o.entries else [(d, st)]
            if name == "update":
                ents = list(o.entries)
                for v in pos:
                    e = st.heap[v].entries if v.op == "obj" and v in st.heap and st.heap[v].kind == "dict" else None
                    ents.extend(e if e is not None else (mk("star", self.reify(v, st)),))
                for k, v in kwd.items():
                    ents.append(mk("kv", const(k), v))
                st.heap[base] = Obj("dict", ents, o.base)
                return [(NONE, st)]
            if name == "copy" and not pos:
                return [(self.alloc(st, "dict", o.entries), st)]
            if name in ("items", "keys", "values") and all(e.op == "kv" for e in o.entries):
                if name == "items":
                    return [(self.alloc(st, "list", [mk("tuple", *e.args) for e in o.entries]), st)]
                i = 0 if name == "keys" else 1
                return [(self.alloc(st, "list", [e.args[i] for e in o.entries]), st)]
        return None

    def builtin(self, n, pos, kwd, rest, st, node):
        R = lambda t: [(t, st)]
        if rest:
            return None
        if n == "isinstance" and len(pos) == 2:
            cs = pos[1].args if pos[1].op == "tuple" else (pos[1],)
            x = pos[0]
            t = self.boolop("or", [mk("isinstance", x, c) for c in sorted(cs, key=skey)], st)
            d = self.decide(t, st)
            return R(const(d) if d is not None else self.reify(t, st))
        if n == "hasattr" and len(pos) == 2 and is_const(pos[1]):
            t = mk("hasattr", self.reify(pos[0], st), cval(pos[1]))
            d = self.decide(t, st)
            return R(const(d) if d is not None else t)
        if n == "type" and len(pos) == 1:
            ty = self.type_of(pos[0], st)
            if ty is not None and pos[0].op in ("param", "new"):
                return R(mk("class", ty.qual))
            return R(mk("typeof", self.reify(pos[0], st)))
        if n == "getattr" and len(pos) >= 2 and is_const(pos[1]):
            if len(pos) == 2:
                return self.getattr(pos[0], cval(pos[1]), st, node)
            ty = self.type_of(pos[0], st)
            if ty is not None and ty.lookup(cval(pos[1])):
                return self.getattr(pos[0], cval(pos[1]), st, node)
            return R(mk("attr", self.reify(pos[0], st), cval(pos[1])))
        if n == "len" and len(pos) == 1:
            x = pos[0]
            e = self.list_entries(x, st) if x.op != "tuple" else x.args
            if e is not None and not any(y.op in ("each", "star", "set") for y in e):
                return R(const(len(e)))
            if x.op == "const" and isinstance(cval(x), str):
                return R(const(len(cval(x))))
            return R(mk("len", self.reify(x, st)))
        if n in ("list", "tuple", "iter") and len(pos) <= 1 and not kwd:
            if not pos:
                return R(self.alloc(st, "list") if n == "list" else mk("tuple"))
            x = pos[0]
            e = self.list_entries(x, st)
            if e is None and x.op == "tuple":
                e = x.args
            if e is not None:
                if n == "tuple":
                    if not any(y.op in ("each", "star", "set") for y in e):
                        return R(mk("tuple", *e))
                    return R(mk("call", mk("ext", "tuple"), ((0, self.reify(x, st)),)))
                return R(self.alloc(st, "list", e))
            return R(mk("call", mk("ext", n), ((0, self.reify(x, st)),)))
        if n == "dict":
            if not pos:
                return R(self.alloc(st, "dict", [mk("kv", const(k), v) for k, v in kwd.items()]))
            if len(pos) == 1:
                x = pos[0]
                ents = [mk("star", self.reify(x, st))]
                if x.op == "obj" and x in st.heap and st.heap[x].kind == "dict":
                    ents = list(st.heap[x].entries)
                elif x.op == "obj" and x in st.heap and st.heap[x].kind == "list":
                    es = []
                    for y in st.heap[x].entries:
                        if y.op == "tuple" and len(y.args) == 2:
                            es.append(mk("kv", *y.args))
                        elif y.op == "each" and y.args[3].op == "tuple" and len(y.args[3].args) == 2:
                            es.append(mk("each", y.args[0], y.args[1], y.args[2], mk("kv", *y.args[3].args)))
                        else:
                            es = None
                            break
                    if es is not None:
                        ents = es
                return R(self.alloc(st, "dict", ents + [mk("kv", const(k), v) for k, v in kwd.items()]))
        if n == "set" and len(pos) <= 1:
            if not pos:
                return R(self.alloc(st, "set"))
        if n == "map" and len(pos) == 2:
            depth = len(st.loops)
            it = pos[1]
            oid = self.alloc(st, "list")
            outs = []
            itt = self.reify(it, st)
            saved_loops = st.loops
            nb = len(st.conds)
            pre = st.fork()
            st.loops = st.loops + (itt,)
            ents = []
            for v, s in self.call(pos[0], [self.elem(it, depth, st)], [], st, node):
                ents.append(mk("each", itt, depth, tuple(s.conds[nb:]), self.reify(v, s)))
                pre.events = pre.events + s.events[len(pre.events):] if s.events[:len(pre.events)] == pre.events else s.events
            pre.heap[oid] = Obj("list", self.simplify_each(ents, None, nb))
            return [(oid, pre)]
        if n == "bool" and len(pos) == 1:
            d = self.decide(pos[0], st)
            if d is not None:
                return R(const(d))
            if pos[0].op in ("cmp", "not", "isinstance", "isnone", "in"):
                return R(pos[0])
        if n == "min" or n == "max":
            if len(pos) >= 2 and not kwd and all(is_const(x) for x in pos):
                try:
                    return R(const((min if n == "min" else max)(cval(x) for x in pos)))
                except TypeError:
                    pass
        if n == "reversed" and len(pos) == 1:
            s = self.known_seq(pos[0], st)
            if s is not None:
                return R(self.alloc(st, "list", s[::-1]))
        if n.startswith("numpy.") and n.split(".")[-1] in ("empty", "zeros", "ones", "full", "empty_like",
                                                           "zeros_like", "ones_like", "full_like"):
            t = mk("call", mk("ext", n), self.plain_args(pos, kwd, rest, st))
            self.event(st, "call", t, node)
            return R(self.alloc(st, "array", (), t))
        if n == "locals" or n == "globals":
            return R(self.fresh(n))
        return None


class _Clo(object):
    def __init__(self, node, outer):
        self.node = node
        self.qual = (outer.qual if outer else "?") + "." + getattr(node, "name", "<lambda>")
        self.cls = getattr(outer, "cls", None)
        self.pos = getattr(outer, "pos", [])
        self.module = getattr(outer, "module", None)

    def __eq__(self, other):
        return other is self or other is self.node

    def __hash__(self):
        return id(self)


def _is_gen(node):
    from .loader import _has_yield
    return isinstance(node, ast.FunctionDef) and _has_yield(node)


def _shift_each(e, depth):
    """Value of a comprehension entry as seen by an outer iteration at depth."""
    it, d, conds, val = e.args
    if d == depth:
        return val
    mapping = {}
    for x in walk(val):
        if x.op in ("elem", "idx") and len(x.args) == 2 and x.args[1] == d:
            mapping[x] = mk(x.op, x.args[0], depth)
    return subst(val, mapping) if mapping else val


def neg(t):
    if t.op == "not":
        return t.args[0]
    if t.op == "const":
        return const(not cval(t))
    return mk("not", t)


def dedupe(seq):
    out, seen = [], set()
    for x in seq:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


def merge_conds(cs):
    """Merge condition lists that differ in the polarity of one literal."""
    live = {}
    for c in cs:
        live.setdefault(frozenset(c), tuple(c))
    work = list(live)
    k = 0
    while k < len(work):
        c = work[k]
        k += 1
        if c not in live:
            continue
        for q in live[c]:
            rest = c - {q}
            other = None
            if rest in live:
                other, m = rest, live[rest]
            else:
                flip = rest | {(q[0], not q[1])}
                if flip in live and flip != c:
                    other, m = flip, tuple(z for z in live[c] if z != q)
            if other is not None:
                del live[c], live[other]
                fm = frozenset(m)
                if fm not in live:
                    live[fm] = m
                    work.append(fm)
                break
    return list(live.values())


def is_true_const(e):
    return isinstance(e, ast.Constant) and bool(e.value)


def _as_load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


_AN = {}


def assigned_names(stmts):
    out = set()
    stack = list(stmts)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # comprehension variables are local; still look for walrus
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
            b = n.value
            while isinstance(b, (ast.Subscript,)):
                b = b.value
            if isinstance(b, ast.Name):
                out.add(b.id)
        stack.extend(ast.iter_child_nodes(n))
    return out


def rebound_names(stmts):
    out = set()
    stack = list(stmts)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, ast.AugAssign):
            stack.append(n.value)
            continue
        stack.extend(ast.iter_child_nodes(n))
    return out


def target_names(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def attr_targets(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                out.add((n.value.id, n.attr))
    return out
