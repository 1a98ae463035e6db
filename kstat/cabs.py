"""Abstract interpretation of C functions: exact heap shapes and indices, coordinates as order symbols.

Heap blocks, pointers and small integers are tracked exactly; coordinates are symbols (or minima and maxima of sets of
symbols) of which only the order facts established by branches are known, and every comparison that the facts leave open
is followed both ways. All paths are explored from abstract start states given by the caller; callees may be replaced by
contracts."""
from .cfront import FrontEndError


class Fault(Exception):
    """a definite misuse of memory (or termination of the process) on a feasible path"""
    def __init__(self, what, where=None):
        Exception.__init__(self, what)
        self.what, self.where = what, where


class Unknown(Exception):
    pass


class Infeasible(Exception):
    pass


class Uninit(object):
    def __repr__(self):
        return "UNINIT"


class Top(object):
    def __repr__(self):
        return "TOP"


UNINIT, TOP = Uninit(), Top()


class Sym(object):
    """linear form over named coordinates"""
    __slots__ = ("terms", "const")

    def __init__(self, terms, const=0.0):
        self.terms = tuple(sorted((k, v) for k, v in dict(terms).items() if v))
        self.const = const

    def __eq__(self, o):
        return isinstance(o, Sym) and self.terms == o.terms and self.const == o.const

    def __hash__(self):
        return hash((self.terms, self.const))

    @property
    def atom(self):
        return self.terms[0][0] if len(self.terms) == 1 and self.terms[0][1] == 1 and not self.const else None

    def __repr__(self):
        return "+".join("%s*%s" % (v, k) if v != 1 else str(k) for k, v in self.terms) + \
            ("+%s" % self.const if self.const else "")


def sym(name):
    return Sym({name: 1})


class Ext(object):
    """minimum or maximum of a set of symbols"""
    __slots__ = ("kind", "of")

    def __init__(self, kind, of):
        self.kind, self.of = kind, frozenset(of)

    def __eq__(self, o):
        return isinstance(o, Ext) and self.kind == o.kind and self.of == o.of

    def __hash__(self):
        return hash((self.kind, self.of))

    def __repr__(self):
        return "%s%s" % (self.kind, sorted(map(repr, self.of)))


def extreme(kind, a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            if isinstance(y, (int, float)):
                return min(x, y) if kind == "min" else max(x, y)
            if (kind == "min" and x >= 1e30) or (kind == "max" and x <= -1e30):
                return y
            return TOP
    if a is UNINIT or b is UNINIT:
        return UNINIT
    out = set()
    for x in (a, b):
        if isinstance(x, Sym):
            out.add(x)
        elif isinstance(x, Ext):
            out |= x.of if x.kind == kind else {x}
        else:
            return TOP
    return next(iter(out)) if len(out) == 1 else Ext(kind, out)


class Block(object):
    __slots__ = ("n", "size", "cells", "freed", "line", "kind", "zero", "label")

    def __init__(self, n, size, kind, line, zero=False, label=None):
        self.n, self.size, self.kind, self.line, self.zero = n, size, kind, line, zero
        self.cells = {}
        self.freed = None
        self.label = label

    def __repr__(self):
        return "#%d%s" % (self.n, ":" + self.label if self.label else "")


class Ptr(object):
    __slots__ = ("b", "off")

    def __init__(self, b, off=0):
        self.b, self.off = b, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.b is o.b and self.off == o.off

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((id(self.b), self.off))

    def __repr__(self):
        return "%r+%d" % (self.b, self.off)


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Exit(Exception):
    pass


class Machine(object):
    def __init__(self, h, choices=(), contracts=None, budget=60000):
        self.h = h
        self.pre = list(choices)
        self.made = []
        self.contracts = contracts or {}
        self.heap = []
        self.le = {}                 # atom -> {atom: strict?} known a <= b
        self.setle = []              # (kind, frozenset, atom): min(S) <= atom, or atom <= max(S)
        self.memo = {}
        self.sums = {}               # mean -> the two ends it was computed from
        self.means = set()
        self.steps = 0
        self.budget = budget
        self.env = []
        self.line = 0
        self.globals = {}
        self.stack = []

    # ---------------------------------------------------------------- choices
    def choose(self, n):
        i = len(self.made)
        k = self.pre[i] if i < len(self.pre) else 0
        self.made.append((k, n))
        return k

    # ---------------------------------------------------------------- heap
    def new(self, size, kind="heap", zero=False, label=None):
        if not isinstance(size, int):
            raise Unknown("allocation of unknown size")
        b = Block(len(self.heap), size, kind, self.line, zero, label)
        self.heap.append(b)
        return Ptr(b)

    def where(self):
        return self.line

    def chk(self, p, size, what):
        if p is UNINIT:
            raise Fault("%s through an uninitialised pointer" % what, self.where())
        if p is TOP:
            raise Unknown("unknown pointer")
        if p == 0 and not isinstance(p, Ptr):
            raise Fault("%s through a null pointer" % what, self.where())
        if not isinstance(p, Ptr):
            raise Unknown("pointer %r" % (p,))
        if p.b.freed is not None:
            raise Fault("%s of memory released at line %s" % (what, p.b.freed), self.where())
        if p.off < 0 or p.off + size > p.b.size:
            raise Fault("%s of bytes %d to %d of a block of %d bytes allocated at line %s" %
                        (what, p.off, p.off + size, p.b.size, p.b.line), self.where())

    def load(self, p, t):
        size = self.h.size(t)
        self.chk(p, size, "read")
        r = self.h.record(t) if not self.h.resolve(t).endswith("*") else None
        if r is not None:
            return ("struct", tuple((o - p.off, v) for o, v in p.b.cells.items() if p.off <= o < p.off + size))
        v = p.b.cells.get(p.off)
        if v is None:
            return 0 if p.b.zero else UNINIT
        return v

    def store(self, p, t, v):
        size = self.h.size(t)
        self.chk(p, size, "write")
        if isinstance(v, tuple) and v and v[0] == "struct":
            for o in [o for o in p.b.cells if p.off <= o < p.off + size]:
                del p.b.cells[o]
            for o, x in v[1]:
                p.b.cells[p.off + o] = x
            return
        p.b.cells[p.off] = v

    def free(self, p):
        if p == 0 and not isinstance(p, Ptr):
            return
        if p is UNINIT:
            raise Fault("release of an uninitialised pointer", self.where())
        if not isinstance(p, Ptr):
            raise Unknown("release of %r" % (p,))
        if p.b.freed is not None:
            raise Fault("memory allocated at line %s is released again (first at line %s)" % (p.b.line, p.b.freed), self.where())
        if p.off != 0 or p.b.kind != "heap":
            raise Fault("release of an address that was not allocated", self.where())
        p.b.freed = self.where()

    # ---------------------------------------------------------------- order facts
    def entails(self, a, b):
        """True: a <= b known; 'strict': a < b known"""
        if a == b:
            return True
        seen, todo = {a: False}, [a]
        while todo:
            x = todo.pop()
            for y, s in self.le.get(x, {}).items():
                st = seen[x] or s
                if y not in seen or (st and not seen[y]):
                    seen[y] = st
                    todo.append(y)
        if b in seen:
            return "strict" if seen[b] else True
        return False

    def point(self, a):
        """a coordinate or a (rounded) mean of coordinates: an element of the order; its neighbours are recorded"""
        if a.atom is not None:
            return True
        if a.const or not a.terms or any(v < 0 for k, v in a.terms) or abs(sum(v for k, v in a.terms) - 1) > 1e-12:
            return False
        if a not in self.means:
            self.means.add(a)
            ends = self.sums.get(a)
            if ends is None and len(a.terms) == 2:
                ends = tuple(sym(k) for k, v in a.terms)
            if ends is not None and all(isinstance(e, Sym) for e in ends) and ends[0] != ends[1]:
                for lo, hi in (ends, ends[::-1]):
                    if self.point(lo) and self.point(hi) and self.entails(lo, hi):
                        self.fact(lo, a, False)
                        self.fact(a, hi, False)
                        break
        return True

    def fact(self, a, b, strict):
        back = self.entails(b, a)
        if back == "strict" or (back and strict):
            raise Infeasible()
        d = self.le.setdefault(a, {})
        d[b] = d.get(b, False) or strict

    def less(self, a, b, strict):
        """a < b (strict) or a <= b, deciding and recording what is open"""
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a < b if strict else a <= b
        if a is UNINIT or b is UNINIT:
            raise Fault("comparison of an uninitialised value", self.where())
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(x, (int, float)) and abs(x) >= 1e30 and isinstance(y, (Sym, Ext)):
                big = x > 0
                return (not big) if not flip else big
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a == b:
                return not strict
            if not (self.point(a) and self.point(b)):
                diff = Sym({k: dict(a.terms).get(k, 0) - dict(b.terms).get(k, 0) for k in dict(a.terms + b.terms)}, a.const - b.const)
                neg = Sym({k: -v for k, v in diff.terms}, -diff.const)
                if ("d", diff) in self.memo:                   # sign of a - b: -1, 0, 1
                    s = self.memo["d", diff]
                elif ("d", neg) in self.memo:
                    s = -self.memo["d", neg]
                else:
                    s = (-1, 0, 1)[self.choose(3)]
                    self.memo["d", diff] = s
                return s < 0 or (s == 0 and not strict)
            f, g = self.entails(a, b), self.entails(b, a)
            if strict:
                if f == "strict":
                    return True
                if g:
                    return False
            else:
                if f:
                    return True
                if g == "strict":
                    return False
            if self.choose(2) == 0:
                self.fact(a, b, strict)
                return True
            self.fact(b, a, not strict)
            return False
        if isinstance(a, Ext) and isinstance(b, Sym) or isinstance(a, Sym) and isinstance(b, Ext):
            key = ("c", a, b, strict)
            if key in self.memo:
                return self.memo[key]
            r = self.choose(2) == 0
            if not all(isinstance(x, Sym) and self.point(x) for e in (a, b) if isinstance(e, Ext) for x in e.of):
                pass
            elif isinstance(b, Ext):                             # a symbol against an extreme
                if r and b.kind == "min":
                    for s in b.of:
                        self.fact(a, s, strict)
                elif not r and b.kind == "max":
                    for s in b.of:
                        self.fact(s, a, not strict)
                elif not r and b.kind == "min":
                    self.setle.append(("min", b.of, a))
                elif r and b.kind == "max":
                    self.setle.append(("max", b.of, a))
            else:
                if r and a.kind == "max":
                    for s in a.of:
                        self.fact(s, b, strict)
                elif not r and a.kind == "min":
                    for s in a.of:
                        self.fact(b, s, not strict)
                elif r and a.kind == "min":
                    self.setle.append(("min", a.of, b))
                elif not r and a.kind == "max":
                    self.setle.append(("max", a.of, b))
            self.memo[key] = r
            return r
        return self.choose(2) == 0

    def possible(self, extra):
        """whether the recorded order allows the further facts (a, b, strict): a < b or a <= b"""
        keep, self.le = self.le, {a: dict(d) for a, d in self.le.items()}
        try:
            for a, b, strict in extra:
                if not (isinstance(a, Sym) and isinstance(b, Sym) and self.point(a) and self.point(b)):
                    raise Unknown("order of %r and %r" % (a, b))
                if a == b:
                    if strict:
                        return False
                    continue
                try:
                    self.fact(a, b, strict)
                except Infeasible:
                    return False
            return True
        finally:
            self.le = keep

    def beyond(self, v, s, kind):
        """conjunctions of facts under any of which the bound v fails for the symbol s: v > s (kind min) or v < s"""
        if isinstance(v, Sym):
            return [[(s, v, True) if kind == "min" else (v, s, True)]]
        parts = [self.beyond(x, s, kind) for x in sorted(v.of, key=repr)]
        if v.kind == kind:                       # min(S) > s: every member is
            out = [[]]
            for p in parts:
                out = [o + c for o in out for c in p]
                if len(out) > 64:
                    raise Unknown("nested extremes")
            return out
        return [c for p in parts for c in p]     # max(S) > s: some member is

    def covers(self, v, s, kind):
        """the stored bound v is at most (kind min) or at least (kind max) the symbol s; None: unknown"""
        if v is TOP or v is UNINIT:
            return None if v is TOP else False
        if isinstance(v, (int, float)):
            return (v <= -1e30) if kind == "min" else (v >= 1e30)
        if isinstance(v, Ext) and v.kind == kind:
            for k, S, a in self.setle:
                if k == kind and S <= v.of and (self.entails(a, s) if kind == "min" else self.entails(s, a)):
                    return True
        return not any(self.possible(c) for c in self.beyond(v, s, kind))

    # ---------------------------------------------------------------- functions
    def call(self, name, args):
        if name in self.contracts:
            return self.contracts[name](self, args)
        return self.body(name, args)

    def body(self, name, args):
        f = self.h.funcs.get(name)
        if f is None:
            return self.external(name, args)
        if len(self.stack) > 40:
            raise Fault("unbounded recursion of " + name, self.where())
        frame = {}
        for (n, t, i), v in zip(f.params, args):
            p = self.new(self.h.size(t), "stack", label=n)
            self.store(p, t, v)
            frame[i] = p
        self.env.append(frame)
        self.stack.append(name)
        line = self.line
        try:
            self.stmt(f.body)
            v = UNINIT
        except Return as r:
            v = r.v
        finally:
            self.env.pop()
            self.stack.pop()
        for p in frame.values():
            p.b.freed = "the end of " + name
        self.line = line
        return v

    def external(self, name, args):
        if name == "malloc":
            return self.new(args[0])
        if name == "calloc":
            if not all(isinstance(a, int) for a in args):
                raise Unknown("allocation of unknown size")
            return self.new(args[0] * args[1], zero=True)
        if name == "realloc":
            p = self.new(args[1])
            if isinstance(args[0], Ptr):
                self.chk(args[0], 0, "reallocation")
                p.b.cells = {o: v for o, v in args[0].b.cells.items() if o < args[1]}
                self.free(args[0])
            return p
        if name == "free":
            self.free(args[0])
            return 0
        if name in ("memcpy", "memmove"):
            d, s, n = args
            if not isinstance(n, int):
                raise Unknown("copy of unknown size")
            self.chk(s, n, "copy")
            self.chk(d, n, "copy")
            got = {o: v for o, v in s.b.cells.items() if s.off <= o < s.off + n}
            for o in [o for o in d.b.cells if d.off <= o < d.off + n]:
                del d.b.cells[o]
            for o, v in got.items():
                d.b.cells[d.off + o - s.off] = v
            return d
        if name in ("exit", "abort"):
            raise Exit()
        if name in ("printf", "fprintf", "puts", "fflush"):
            return 0
        if name in ("fmin", "fminf"):
            return args[0] if self.less(args[0], args[1], False) else args[1]
        if name in ("fmax", "fmaxf"):
            return args[0] if self.less(args[1], args[0], False) else args[1]
        if name in ("fabs", "fabsf", "sqrt", "floor", "ceil", "pow"):
            return TOP
        if name in ("isnan", "__builtin_isnan"):
            return 0
        raise Unknown("call of " + name)

    # ---------------------------------------------------------------- statements
    def stmt(self, n):
        k = n.kind
        self.steps += 1
        if self.steps > self.budget:
            raise Unknown("budget of steps")
        if n.line and n.line[1]:
            self.line = n.line[1]
        if k == "CompoundStmt":
            for x in n.kids:
                self.stmt(x)
        elif k == "DeclStmt":
            for x in n.kids:
                if x.kind == "VarDecl":
                    p = self.new(self.h.size(x.type), "stack", label=x.name)
                    self.env[-1][x.extra["id"]] = p
                    init = [y for y in x.kids if not y.kind.endswith("Attr")]
                    if init:
                        self.store(p, x.type, self.ev(init[0]))
        elif k == "IfStmt":
            if self.truth(n.kids[0]):
                self.stmt(n.kids[1])
            elif len(n.kids) > 2:
                self.stmt(n.kids[2])
        elif k == "WhileStmt":
            while self.truth(n.kids[0]):
                self.turn()
                try:
                    self.stmt(n.kids[1])
                except Break:
                    break
                except Continue:
                    continue
        elif k == "DoStmt":
            while True:
                self.turn()
                try:
                    self.stmt(n.kids[0])
                except Break:
                    break
                except Continue:
                    pass
                if not self.truth(n.kids[1]):
                    break
        elif k == "ForStmt":
            init, _, cond, inc, body = (n.kids + [None] * 5)[:5]
            if init is not None and init.kind != "Null":
                self.stmt(init)
            while cond.kind == "Null" or self.truth(cond):
                self.turn()
                try:
                    self.stmt(body)
                except Break:
                    break
                except Continue:
                    pass
                if inc.kind != "Null":
                    self.ev(inc)
        elif k == "SwitchStmt":
            v = self.ev(n.kids[0])
            if v is UNINIT:
                raise Fault("branch on an uninitialised value", self.where())
            if not isinstance(v, int):
                raise Unknown("switch on %r" % (v,))
            self.switch(n.kids[1], v)
        elif k == "ReturnStmt":
            raise Return(self.ev(n.kids[0]) if n.kids else UNINIT)
        elif k == "BreakStmt":
            raise Break()
        elif k == "ContinueStmt":
            raise Continue()
        elif k in ("NullStmt", "Null"):
            pass
        elif k in ("CaseStmt", "DefaultStmt"):
            self.stmt(n.kids[-1])
        else:
            self.ev(n)

    def turn(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Fault("a loop does not end", self.where()) if self.h is None else Unknown("budget of steps")

    def switch(self, body, v):
        flat = []

        def put(x):
            if x.kind == "CaseStmt":
                flat.append(("case", self.ev(x.kids[0])))
                put(x.kids[-1])
            elif x.kind == "DefaultStmt":
                flat.append(("default", None))
                put(x.kids[-1])
            else:
                flat.append(("stmt", x))
        for x in body.kids:
            put(x)
        start = [i for i, (k, c) in enumerate(flat) if k == "case" and c == v] or \
            [i for i, (k, c) in enumerate(flat) if k == "default"]
        if not start:
            return
        try:
            for k, x in flat[start[0]:]:
                if k == "stmt":
                    self.stmt(x)
        except Break:
            pass

    def truth(self, n):
        v = self.ev(n)
        if v is UNINIT:
            raise Fault("branch on an uninitialised value", self.where())
        if v is TOP:
            return self.choose(2) == 0
        if isinstance(v, Ptr):
            return True
        if isinstance(v, (Sym, Ext)):
            raise Unknown("truth of a coordinate")
        return bool(v)

    # ---------------------------------------------------------------- expressions
    def lv(self, n):
        """address and type of an lvalue"""
        k = n.kind
        if k == "ParenExpr":
            return self.lv(n.kids[0])
        if k == "DeclRefExpr":
            for fr in (self.env[-1],):
                if n.ref[2] in fr:
                    return fr[n.ref[2]], n.type
            if n.ref[2] not in self.globals:
                self.globals[n.ref[2]] = self.new(self.h.size(n.type), "static", zero=True)
            return self.globals[n.ref[2]], n.type
        if k == "MemberExpr":
            b = n.kids[0]
            if n.arrow:
                p = self.ev(b)
                t = self.h.resolve(b.type)
                t = t[:-1].strip()
            else:
                if b.kind in ("CallExpr",):
                    raise Unknown("member of a call")
                p, t = self.lv(b)
            r = self.h.record(t)
            if r is None or n.name not in r["fields"]:
                raise Unknown("member " + str(n.name))
            self.chk(p, 0, "access")
            return Ptr(p.b, p.off + r["fields"][n.name][0]), r["fields"][n.name][1]
        if k == "ArraySubscriptExpr":
            p, i = self.ev(n.kids[0]), self.ev(n.kids[1])
            if i is UNINIT:
                raise Fault("index that was never set", self.where())
            if not isinstance(i, int):
                raise Unknown("index %r" % (i,))
            self.chk(p, 0, "access")
            return Ptr(p.b, p.off + i * self.h.size(n.type)), n.type
        if k == "UnaryOperator" and n.op == "*":
            p = self.ev(n.kids[0])
            self.chk(p, 0, "access")
            return p, n.type
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            return self.lv(n.kids[0])
        raise Unknown("lvalue " + k)

    def ev(self, n):
        k = n.kind
        if k == "ImplicitCastExpr" or k == "CStyleCastExpr":
            c = n.extra.get("castKind")
            if c == "LValueToRValue":
                p, t = self.lv(n.kids[0])
                return self.load(p, n.kids[0].type)
            if c == "ArrayToPointerDecay":
                if n.kids[0].kind == "StringLiteral":
                    return TOP
                return self.lv(n.kids[0])[0]
            if c in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
                return n.kids[0]
            v = self.ev(n.kids[0])
            if c == "FloatingToIntegral":
                return int(v) if isinstance(v, (int, float)) else TOP
            return v
        if k in ("ParenExpr", "ConstantExpr"):
            return self.ev(n.kids[0])
        if k == "IntegerLiteral":
            return int(n.value)
        if k == "FloatingLiteral":
            return float(n.value)
        if k == "CharacterLiteral":
            return int(n.value)
        if k == "StringLiteral":
            return TOP
        if k == "DeclRefExpr":
            if n.ref[0] == "EnumConstantDecl":
                return self.h.enums[n.ref[1]]
            p, t = self.lv(n)
            return self.load(p, n.type)
        if k in ("MemberExpr", "ArraySubscriptExpr"):
            p, t = self.lv(n)
            return self.load(p, n.type)
        if k == "UnaryExprOrTypeTraitExpr":
            a = n.extra.get("argType")
            t = (a.get("desugaredQualType") or a["qualType"]) if a else n.kids[0].kids[0].type if n.kids[0].kind == "ParenExpr" \
                else n.kids[0].type
            return self.h.size(t)
        if k == "UnaryOperator":
            return self.unary(n)
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            return self.binary(n)
        if k == "ConditionalOperator":
            return self.ev(n.kids[1]) if self.truth(n.kids[0]) else self.ev(n.kids[2])
        if k == "CallExpr":
            f = n.kids[0]
            while f.kind in ("ImplicitCastExpr", "ParenExpr"):
                f = f.kids[0]
            if f.kind != "DeclRefExpr":
                raise Unknown("indirect call")
            if f.ref[1] in ("printf", "fprintf", "puts"):
                return 0
            line = self.line
            args = [self.ev(x) for x in n.kids[1:]]
            self.line = n.line[1] or line
            return self.call(f.ref[1], args)
        if k == "InitListExpr":
            raise Unknown("initialiser list")
        raise Unknown("expression " + k)

    def unary(self, n):
        op = n.op
        if op == "&":
            return self.lv(n.kids[0])[0]
        if op == "*":
            p, t = self.lv(n)
            return self.load(p, n.type)
        if op == "!":
            return 0 if self.truth(n.kids[0]) else 1
        if op in ("++", "--"):
            p, t = self.lv(n.kids[0])
            v = self.load(p, n.kids[0].type)
            if v is UNINIT:
                raise Fault("arithmetic on an uninitialised value", self.where())
            d = 1 if op == "++" else -1
            ty = self.h.resolve(n.kids[0].type)
            new = Ptr(v.b, v.off + d * self.h.size(ty[:-1])) if isinstance(v, Ptr) else v + d if isinstance(v, (int, float)) else TOP
            self.store(p, n.kids[0].type, new)
            return v if n.extra.get("isPostfix") else new
        v = self.ev(n.kids[0])
        if op in ("-", "+"):
            return self.arith("*", v, -1 if op == "-" else 1)
        if op == "~" and isinstance(v, int):
            return ~v
        raise Unknown("operator " + op)

    def arith(self, op, a, b):
        if a is UNINIT or b is UNINIT:
            raise Fault("arithmetic on an uninitialised value", self.where())
        if a is TOP or b is TOP or isinstance(a, Ext) or isinstance(b, Ext):
            return TOP
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op in ("/", "%"):
                if b == 0:
                    if isinstance(a, int) and isinstance(b, int):
                        raise Fault("division by zero", self.where())
                    return TOP
                if isinstance(a, int) and isinstance(b, int):
                    q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                    return q if op == "/" else a - q * b
                return a / b
            if isinstance(a, int) and isinstance(b, int):
                return {"<<": lambda: a << b, ">>": lambda: a >> b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}[op]()
        A = a if isinstance(a, Sym) else Sym({}, a)
        B = b if isinstance(b, Sym) else Sym({}, b)
        if op in ("+", "-"):
            s = 1 if op == "+" else -1
            d = dict(A.terms)
            for k, v in B.terms:
                d[k] = d.get(k, 0) + s * v
            r = Sym(d, A.const + s * B.const)
            if s == 1 and isinstance(a, Sym) and isinstance(b, Sym):
                self.sums.setdefault(r, (a, b))
            return r
        if op == "*" and not (A.terms and B.terms):
            if B.terms:
                A, B = B, A
            return self.scaled(A, B.const)
        if op == "/" and not B.terms and B.const:
            return self.scaled(A, 1 / B.const)
        return TOP

    def scaled(self, A, c):
        r = Sym({k: v * c for k, v in A.terms}, A.const * c)
        if A in self.sums and c == 0.5:
            self.sums.setdefault(r, self.sums[A])
        return r

    def binary(self, n):
        op = n.op
        l, r = n.kids
        if op == "=":
            p, t = self.lv(l)
            v = self.ev(r)
            self.store(p, l.type, v)
            return v
        if n.kind == "CompoundAssignOperator":
            p, t = self.lv(l)
            a, b = self.load(p, l.type), self.ev(r)
            if isinstance(a, Ptr):
                if not isinstance(b, int):
                    raise Unknown("pointer arithmetic")
                v = Ptr(a.b, a.off + (b if op == "+=" else -b) * self.h.size(self.h.resolve(l.type)[:-1]))
            else:
                v = self.arith(op[:-1], a, b)
            self.store(p, l.type, v)
            return v
        if op == "&&":
            return 1 if self.truth(l) and self.truth(r) else 0
        if op == "||":
            return 1 if self.truth(l) or self.truth(r) else 0
        a, b = self.ev(l), self.ev(r)
        if op == ",":
            return b
        if op in ("==", "!=", "<", "<=", ">", ">="):
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if op in ("==", "!="):
                    for x in (a, b):
                        if x is UNINIT:
                            raise Fault("comparison of an uninitialised pointer", self.where())
                        if x is TOP:
                            raise Unknown("pointer comparison")
                    same = isinstance(a, Ptr) and isinstance(b, Ptr) and a == b
                    return int(same == (op == "=="))
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b is b.b:
                    a, b = a.off, b.off
                else:
                    raise Unknown("pointer comparison")
            if op == "<":
                return int(self.less(a, b, True))
            if op == "<=":
                return int(self.less(a, b, False))
            if op == ">":
                return int(self.less(b, a, True))
            if op == ">=":
                return int(self.less(b, a, False))
            if a is UNINIT or b is UNINIT:
                raise Fault("comparison of an uninitialised value", self.where())
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return int((a == b) == (op == "=="))
            if isinstance(a, Sym) and isinstance(b, Sym):
                eq = self.less(a, b, False) and self.less(b, a, False)
                return int(eq == (op == "=="))
            return self.choose(2)
        if isinstance(a, Ptr) and isinstance(b, int) and op in ("+", "-"):
            return Ptr(a.b, a.off + (b if op == "+" else -b) * self.h.size(self.h.resolve(n.type)[:-1]))
        if isinstance(b, Ptr) and isinstance(a, int) and op == "+":
            return Ptr(b.b, b.off + a * self.h.size(self.h.resolve(n.type)[:-1]))
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "-" and a.b is b.b:
            return (a.off - b.off) // self.h.size(self.h.resolve(l.type)[:-1])
        return self.arith(op, a, b)


def explore(h, run, contracts=None, limit=20000, budget=60000):
    """all paths of run(machine); yields (machine, result, fault)"""
    choices = []
    count = 0
    while True:
        m = Machine(h, choices, contracts, budget)
        m.line = 0
        res = fault = None
        feasible = True
        try:
            res = run(m)
        except Fault as f:
            fault = f
        except Exit:
            fault = Fault("the process is terminated", m.where())
        except Infeasible:
            feasible = False
        except FrontEndError as e:
            raise Unknown(str(e))
        except RecursionError:
            raise Unknown("recursion")
        if feasible:
            yield m, res, fault
        count += 1
        if count > limit:
            raise Unknown("more than %d paths" % limit)
        made = m.made
        while made and made[-1][0] == made[-1][1] - 1:
            made = made[:-1]
        if not made:
            return
        choices = [k for k, n in made[:-1]] + [made[-1][0] + 1]
