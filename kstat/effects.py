"""Write effects of functions on objects reachable from their parameters (alias roots over value terms)."""
import ast
import re
from .terms import T, mk, const, is_const, cval, walk, arg, NONE, TRUE
from .interp import Interp, Policy, Overflow

MUTATORS = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "update", "setdefault", "sort",
            "reverse", "fill", "itemset", "put", "partition", "__setitem__", "__delitem__", "__setattr__",
            "discard", "appendleft", "extendleft", "rotate", "move_to_end", "setflags", "byteswap_inplace"}
VIEW_METHODS = {"ravel", "reshape", "view", "squeeze", "transpose", "swapaxes", "diagonal", "__getitem__", "get",
                "getfield", "values", "items", "setdefault", "getblock"}
VIEW_ATTRS = {"T", "flat", "real", "imag"}
VIEW_FUNCS = {"asarray", "asanyarray", "atleast_1d", "atleast_2d", "atleast_3d", "squeeze", "ravel", "reshape",
              "transpose", "swapaxes", "rollaxis", "moveaxis", "flipud", "fliplr", "flip", "rot90", "expand_dims",
              "broadcast_to", "ascontiguousarray", "asfortranarray", "split", "require"}
ARRAY_FUNCS = VIEW_FUNCS
SHALLOW_FUNCS = {"list", "tuple", "dict", "sorted", "reversed", "set", "copy", "OrderedDict", "enumerate", "zip",
                 "iter", "filter", "chain"}
OUT_FIRST = {"copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis", "shuffle", "heappush", "heappop",
             "heapify", "insort", "insort_left", "insort_right", "setattr", "delattr", "nan_to_num_inplace"}
GRIDLIKE = {"transform", "_transform", "nodata", "_nodata", "nodata_value", "bands", "data_mask", "data_mask_full",
            "resolution", "nbands", "crs", "_bndcls", "positions", "values"}
COMMON = {"__init__", "indices", "index", "count", "get", "join", "split", "copy", "size", "shape", "min", "max", "sum",
          "mean", "transpose", "format", "read", "write", "close", "items", "keys", "values", "find", "next"}
CACHE_WORDS = ("cache", "index", "quadtree", "rtree", "tree", "memo")


def is_cache(name):
    return any(w in name.lower() for w in CACHE_WORDS)


def leaf(t):
    return t.args[0].split(".")[-1] if t.op == "ext" else None


class Roots(object):
    """Which parameter-reachable objects a term denotes.  A root is (param, (path...)).
    `certain` roots only: unknown operations yield nothing."""

    def __init__(self, prog, summaries):
        self.p = prog
        self.sum = summaries
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            self.memo[t] = frozenset()
            r = self.memo[t] = frozenset(self._roots(t))
        return r

    def _roots(self, t):
        op, a = t.op, t.args
        if op == "param":
            return {(a[0], ())}
        if op == "attr":
            if a[1] in VIEW_ATTRS:
                return self(a[0])
            out = {(p, q + (a[1],)) for p, q in self(a[0])}
            out |= self.member(a[0], a[1])
            return out
        if op == "item":
            k = a[1]
            if not self.simple_key(k) or self.fresh_items(a[0]):
                return set()
            out = {(p, q if k.op == "slice" else q + ("[]",)) for p, q in self(a[0])}
            out |= self.elements(a[0])
            return out
        if op == "elem":
            it = a[0]
            return {(p, q + ("[]",)) for p, q in self(it)} | self.elements(it)
        if op == "upd":
            return self(a[0])
        if op == "lv":
            out = set()
            for x in a:
                if isinstance(x, T):
                    out |= self(x)
            return out
        if op == "phi":
            out = set()
            for x in a:
                if isinstance(x, T):
                    out |= self(x)
            return out
        if op == "ite":
            return self(a[1]) | self(a[2])
        if op == "mcall":
            base, name, args = a
            if name in VIEW_METHODS:
                out = self(base)
                if name in ("get", "__getitem__", "setdefault", "getfield"):
                    out = {(p, q + ("[]",)) for p, q in out}
                return out
            if name == "astype":
                c = arg(t, "copy")
                if c is not None and is_const(c) and not cval(c):
                    return self(base)
            return self.via_summary(name, t)
        if op == "call":
            f, args = a
            n = leaf(f)
            if n in VIEW_FUNCS and args:
                return self(args[0][1])
            if n == "array" and args:
                c = arg(t, "copy")
                if c is not None and is_const(c) and not cval(c):
                    return self(args[0][1])
            if n == "__cast__" and len(args) > 1:
                return self(args[1][1])
            if f.op == "func":
                return self.via_summary(f.args[0], t)
        return set()

    def fresh_items(self, base):
        """subscripts of package objects go through __getitem__, which builds its result"""
        while base.op in ("upd", "lv"):
            base = base.args[0] if base.op == "upd" else base.args[1]
        return base in self.sum.containers

    def via_summary(self, key, t):
        return set()

    def simple_key(self, k):
        if k.op == "slice":
            return True
        if k.op == "tuple":
            return all(self.simple_key(x) for x in k.args if isinstance(x, T))
        if is_const(k):
            return True
        # a name bound by a loop over keys or a range, or an arithmetic expression of such
        if k.op in ("elem",):
            return True
        if k.op == "param":
            return False
        if k.op == "bin":
            return all(self.simple_key(x) for x in k.args[1:] if isinstance(x, T))
        if k.op == "item":
            return self.simple_key(k.args[0]) or k.args[0].op in ("elem", "tuple")
        return False

    def elements(self, t):
        """roots of the elements of a fresh container that shares its elements."""
        out = set()
        if t.op == "call":
            n = leaf(t.args[0])
            if n in SHALLOW_FUNCS:
                for k, x in t.args[1]:
                    out |= {(p, q + ("[]",)) for p, q in self(x)} | self.elements(x)
        elif t.op == "mcall" and t.args[1] == "copy" and not t.args[2]:
            out |= {(p, q + ("[]",)) for p, q in self(t.args[0])} | self.elements(t.args[0])
        elif t.op in ("list", "tuple"):
            for x in t.args:
                if isinstance(x, T):
                    if x.op == "each":
                        out |= self(x.args[3])
                    elif x.op == "star":
                        out |= {(p, q + ("[]",)) for p, q in self(x.args[0])} | self.elements(x.args[0])
                    else:
                        out |= self(x)
        elif t.op == "dict":
            for x in t.args:
                if isinstance(x, T) and x.op == "kv":
                    out |= self(x.args[1])
                elif isinstance(x, T) and x.op == "star":
                    out |= {(p, q + ("[]",)) for p, q in self(x.args[0])}
        return out

    def member(self, base, name):
        """attributes of fresh objects that alias what they were made from."""
        if base.op == "call" and leaf(base.args[0]) == "copy" and base.args[1]:
            src = base.args[1][0][1]            # copy.copy shares every attribute
            return {(p, q + (name,)) for p, q in self(src)}
        if base.op == "mcall" and base.args[1] in ("__copy__",):
            return {(p, q + (name,)) for p, q in self(base.args[0])}
        if base.op == "mcall" and base.args[1] == "copy":
            k = self.sum.copy_kind(self.p)
            if k == "shallow":
                return {(p, q + (name,)) for p, q in self(base.args[0])}
        if base.op == "new":
            out = set()
            ct = base.args[0]
            cls = ct.args[0] if ct.op == "class" else None
            for pname in self.sum.ctor_alias(cls, name):
                x = arg(base, pname)
                if x is not None:
                    out |= self(x)
            return out
        return set()


class EffectPolicy(Policy):
    max_depth = 3
    max_states = 120
    no_inline = ("__init__",)

    def __init__(self, depth=3):
        self.max_depth = depth

    def inline(self, interp, f, recv, depth):
        if f.module.lang != "py":
            return False
        return f.name not in self.no_inline


class Effects(object):
    """Per-function write effects; memoised and applied at opaque calls."""

    def __init__(self, prog):
        self.p = prog
        self.memo = {}
        self.ctor = {}
        self.ctor_full = {}
        self.busy = set()
        self.containers = set()
        self.res = {}
        self.arraylike = set()
        self.undec = []
        self._copy = None

    # -- constructor aliasing
    def ctor_alias(self, clsqual, name):
        if clsqual is None:
            return set()
        k = (clsqual, name)
        if k in self.ctor:
            return self.ctor[k]
        self.ctor[k] = set()
        full = set()
        ci = self.p.cls(clsqual)
        init = ci.lookup("__init__") if ci else None
        out = set()
        if init is not None:
            pol = EffectPolicy(4)
            pol.no_inline = ()
            i = Interp(self.p, pol)
            for kw in (None, ("data", "properties", "crs")) if init.kwarg else (None,):
                try:
                    paths = i.run(init, ci, kwkeys=kw)
                except (Overflow, RecursionError, Exception):
                    continue
                s = mk("param", init.pos[0])
                r = Roots(self.p, self)
                for path in paths:
                    v = path.state.attrs.get((s, name))
                    if v is None:
                        continue
                    for pn, q in r(i.reify(v, path.state)):
                        if pn != init.pos[0]:
                            full.add((pn.lstrip("*"), q))
                            if q == ():
                                out.add(pn.lstrip("*"))
        self.ctor[k] = out
        self.ctor_full[k] = full
        return out

    def copy_kind(self, p):
        """What grid.copy() does: 'deep', 'shallow' or None."""
        if self._copy is None:
            self._copy = "unknown"
            c = p.cls("karta.raster.grid.RegularGrid")
            f = c.lookup("copy") if c else None
            if f is not None:
                try:
                    for path in Interp(p, EffectPolicy(1)).run(f, c):
                        v = path.value
                        if v is not None and v.op == "call" and leaf(v.args[0]) == "deepcopy":
                            self._copy = "deep"
                        elif v is not None and v.op == "call" and leaf(v.args[0]) == "copy" and \
                                v.args[0].args[0] == "copy.copy":
                            self._copy = "shallow"
                except Exception:
                    pass
        return self._copy

    # -- effects
    def effects(self, f, cls=None):
        """[(root param, path, what, where, fn, conds)] for writes f may do to its parameters"""
        key = (f.qual, cls.qual if cls else None)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            return []
        self.busy.add(key)
        out = None
        for depth in (3, 1, 0):
            pol = EffectPolicy(depth)
            if f.name == "__init__":
                pol.no_inline = ()
            i = Interp(self.p, pol)
            try:
                paths = i.run(f, cls)
                out = self.collect(i, paths, f, cls)
                self.res[key] = [(x.kind, i.reify(x.value, x.state), x.where) for x in paths
                                 if x.kind == "return" and x.value is not None] + \
                    [("yield", e.term, e.where) for x in paths for e in x.events if e.kind == "yield"]
                break
            except (Overflow, RecursionError):
                continue
            except Exception as e:
                self.undec.append("%s: %s %s" % (f.qual, type(e).__name__, e))
                break
        if out is None:
            self.undec.append("%s: not analysed" % f.qual)
            out = []
        self.busy.discard(key)
        self.memo[key] = out
        return out

    def results(self, f, cls=None):
        self.effects(f, cls)
        seen, out = set(), []
        for k, t, w in self.res.get((f.qual, cls.qual if cls else None), []):
            if (t, w) not in seen:
                seen.add((t, w))
                out.append((k, t, w))
        return out

    def collect(self, i, paths, f, cls):
        out = []
        seen = set()
        r = Roots(self.p, self)
        saved, savedarr = self.containers, self.arraylike
        self.containers = self.package_params(f, cls)
        self.arraylike = array_params(f)
        try:
            return self._collect(paths, r, out, seen)
        finally:
            self.containers, self.arraylike = saved, savedarr

    def package_params(self, f, cls):
        """parameters that hold package objects: the receiver, and those used like a grid or geometry"""
        out = set()
        if cls is not None and f.pos and not f.is_static and cls.lookup("__getitem__") is not None:
            out.add(mk("param", f.pos[0]))
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in GRIDLIKE:
                out.add(mk("param", n.value.id))
        return out

    def _collect(self, paths, r, out, seen):
        for path in paths:
            for ev in path.events:
                k = (ev.kind, ev.term, ev.extra if ev.kind != "store" else ev.extra[:2], ev.where, ev.conds)
                try:
                    if k in seen:
                        continue
                    seen.add(k)
                except TypeError:
                    pass
                for root, what in self.event(ev, r):
                    out.append((root[0], root[1], what, ev.where, ev.fn, ev.conds))
        return out

    def event(self, ev, r):
        k = ev.kind
        if k == "setattr":
            name, val = ev.extra
            for p, q in r(ev.term):
                if val is mk("attr", ev.term, name):
                    continue
                yield (p, q + (name,)), "assigns attribute %s" % name
        elif k == "delattr":
            for p, q in r(ev.term):
                yield (p, q + (ev.extra[0],)), "deletes attribute %s" % ev.extra[0]
        elif k in ("store", "delitem"):
            if k == "store" and ev.extra[1] is mk("item", ev.term, ev.extra[0]):
                return
            for p, q in r(ev.term):
                yield (p, q + ("[]",)), "assigns items"
            b = ev.term
            while b.op in ("upd", "lv"):
                b = b.args[0] if b.op == "upd" else b.args[1]
            if b.op == "call" and leaf(b.args[0]) == "copy" and b.args[0].args[0] == "copy.copy" and b.args[1]:
                src = b.args[1][0][1]
                if src in self.containers:
                    for p, q in r(src):
                        yield (p, q + ("[]",)), "assigns items of a shallow copy, which shares them"
        elif k == "aug":
            op, val, isname = ev.extra
            if isname:
                if self.inplace_value(ev.term, val, op):
                    for p, q in r(ev.term):
                        yield (p, q + ("[]",)), "updates in place (%s=)" % op
        elif k == "mcall":
            base, name, args = ev.term.args
            if name in MUTATORS:
                ks = self.p.by_method.get(name, [])
                if not ks or name in ("update", "append", "pop", "insert", "sort", "clear", "setdefault", "remove"):
                    for p, q in r(base):
                        yield (p, q + ("[]",)), "calls %s()" % name
            out = arg(ev.term, "out")
            if out is not None:
                for p, q in r(out):
                    yield (p, q + ("[]",)), "writes to it through out="
            for x in self.method_summary(base, name, ev.term, r):
                yield x
        elif k == "call":
            f, args = ev.term.args
            n = leaf(f)
            if n in OUT_FIRST and args:
                for p, q in r(args[0][1]):
                    yield (p, q + ("[]",)), "passes it to %s()" % n
            if n is not None:
                out = arg(ev.term, "out")
                if out is not None:
                    for p, q in r(out):
                        yield (p, q + ("[]",)), "writes to it through out="
                if n == "nan_to_num":
                    c = arg(ev.term, "copy")
                    if c is not None and is_const(c) and not cval(c) and args:
                        for p, q in r(args[0][1]):
                            yield (p, q + ("[]",)), "converts it in place"
                if f.args[0].endswith(".at") and args:
                    for p, q in r(args[0][1]):
                        yield (p, q + ("[]",)), "updates it with ufunc.at"
            if f.op == "func":
                g = self.p.func(f.args[0])
                if g is not None:
                    for x in self.apply(g, g.cls, dict(args), r, None):
                        yield x
        elif k == "new":
            ct, args = ev.term.args
            ci = self.p.cls(ct.args[0]) if ct.op == "class" else None
            init = ci.lookup("__init__") if ci else None
            if init is not None and init.module.lang == "py":
                for x in self.apply(init, ci, dict(args), r, None, skip=init.pos[:1]):
                    yield x

    def method_summary(self, base, name, term, r):
        """effects of package methods called on a receiver of unknown class: those all candidates share."""
        if name in COMMON or name in MUTATORS and name not in ("extend", "__setitem__"):
            return
        fs = [g for g in self.p.by_method.get(name, []) if g.cls is not None]
        if not fs or len(fs) > 6:
            return
        roots = r(base)
        argroots = any(r(v) for k, v in term.args[2])
        if not roots and not argroots:
            return
        per = []
        for g in fs:
            per.append({(x[0], x[1]) for x in self.apply2(g, g.cls, dict(term.args[2]), r, base)})
        common = set.intersection(*per) if per else set()
        for root, what in common:
            yield root, what

    def apply2(self, g, cls, args, r, recv):
        for root, what in self.apply(g, cls, args, r, recv):
            yield (root, "calls %s()" % g.name)

    def apply(self, g, cls, args, r, recv, skip=()):
        effs = self.effects(g, cls)
        for (pn, path, what, where, fn, conds) in effs:
            if pn in skip:
                continue
            if path and is_cache(path[0]):
                continue
            name = pn.lstrip("*")
            if recv is not None and g.pos and pn == g.pos[0]:
                x = recv
            else:
                x = args.get(name)
                if x is None and name in g.pos:
                    idx = g.pos.index(name) - (1 if recv is not None else 0)
                    x = args.get(idx)
                if x is None:
                    continue
            if not self.feasible(conds, args, g):
                continue
            for p, q in r(x):
                yield (p, q + path), "calls %s(), which %s" % (g.name, what)

    def feasible(self, conds, args, g):
        """do the constant arguments (or defaults) contradict the condition of the effect"""
        for c, v in conds:
            if c.op == "param":
                x = args.get(c.args[0])
                if x is None:
                    d = g.defaults.get(c.args[0])
                    if d is not None and hasattr(d, "value"):
                        if bool(d.value) != v:
                            return False
                elif is_const(x) and bool(cval(x)) != v:
                    return False
        return True

    def inplace_value(self, t, val, op):
        """is `name op= val` certainly an in-place update of the object t denotes"""
        if t.op == "param" and t in self.arraylike:
            return True
        if t.op == "call" and leaf(t.args[0]) in ARRAY_FUNCS:
            return True
        if t.op == "mcall" and t.args[1] in ("reshape", "ravel", "view", "squeeze", "transpose", "getblock"):
            return True
        if t.op == "attr" and t.args[1] in ("_vertices", "values", "properties"):
            return t.args[1] != "_vertices"
        if t.op == "item" and t.args[1].op in ("slice", "tuple"):
            return True
        if t.op == "upd":
            return True
        if val.op in ("list",) and op == "+":
            return True
        return False


def array_params(f):
    """parameters documented (numpydoc) as arrays, vectors or lists"""
    out = set()
    doc = ast.get_docstring(f.node) if isinstance(f.node, (ast.FunctionDef,)) else None
    for line in (doc or "").split("\n"):
        m = re.match(r"\s*\*?(\w+(?:\s*,\s*\w+)*)\*?\s*:\s*(.*)$", line)
        if m and re.search(r"vector|array|list|sequence|iterable", m.group(2), re.I):
            for n in re.split(r"\s*,\s*", m.group(1)):
                if n in f.pos:
                    out.add(mk("param", n))
    return out
