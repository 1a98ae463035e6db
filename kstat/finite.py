"""Index maps: array expressions resolved, at one instance of their integer sizes, to the map from cells to source cells.

`Arr` is an array whose cells hold labels (which source cell they copy); `Eval` resolves a value term of the analysed
source to integers, tuples and such maps. Nothing of the analysed program is executed: operators are interpreted over
labels, and whatever is outside of the vocabulary is Unknown."""
import math
import operator
from itertools import product

from .iospec import extname, cargs
from .terms import T, mk, is_const, cval, fmt


class Unknown(Exception):
    pass


class Fault(Exception):
    """a definite runtime error: the construct cannot be executed at this instance"""


class Arr(object):
    def __init__(self, shape, data, dtype=None):
        self.shape = tuple(shape)
        self.data = data                          # flat, row-major
        self.dtype = dtype

    @classmethod
    def of(cls, shape, f, dtype=None):
        return cls(shape, [f(*i) for i in product(*[range(n) for n in shape])], dtype)

    @property
    def ndim(self):
        return len(self.shape)

    def strides(self):
        out, s = [], 1
        for n in reversed(self.shape):
            out.append(s)
            s *= n
        return tuple(reversed(out))

    def at(self, *ix):
        return self.data[sum(i * s for i, s in zip(ix, self.strides()))]

    def pick(self, key):
        """(shape, flat positions) selected by a basic index or boolean mask"""
        if not isinstance(key, tuple):
            key = (key,)
        if any(isinstance(k, Arr) for k in key):
            if len(key) != 1:
                raise Unknown("mixed index")
            m = key[0]
            if not all(isinstance(x, bool) for x in m.data):
                raise Unknown("array index")
            if m.shape != self.shape[:m.ndim]:
                raise Fault("mask of shape %s on an array of shape %s" % (m.shape, self.shape))
            rest = 1
            for n in self.shape[m.ndim:]:
                rest *= n
            pos = [i * rest + r for i, x in enumerate(m.data) if x for r in range(rest)]
            return (sum(m.data),) + self.shape[m.ndim:], pos
        if Ellipsis in [k for k in key if k is Ellipsis]:
            i = [n for n, k in enumerate(key) if k is Ellipsis][0]
            key = key[:i] + (slice(None),) * (self.ndim - len([k for k in key if k is not None]) + 1) + key[i + 1:]
        if len([k for k in key if k is not None]) > self.ndim:
            raise Fault("too many indices")
        key = key + (slice(None),) * (self.ndim - len([k for k in key if k is not None]))
        axes, shape, d = [], [], 0
        for k in key:
            if k is None:
                shape.append(1)
                continue
            n = self.shape[d]
            d += 1
            if isinstance(k, bool) or not isinstance(k, (int, slice)):
                if isinstance(k, float):
                    raise Fault("floating-point index")
                raise Unknown("index %r" % (k,))
            if isinstance(k, int):
                if not -n <= k < n:
                    raise Fault("index %d out of %d" % (k, n))
                axes.append([k % n])
            else:
                for b in (k.start, k.stop, k.step):
                    if isinstance(b, float):
                        raise Fault("floating-point index")
                r = range(*k.indices(n))
                axes.append(list(r))
                shape.append(len(r))
        st = self.strides()
        return tuple(shape), [sum(i * s for i, s in zip(ix, st)) for ix in product(*axes)]

    def get(self, key):
        shape, pos = self.pick(key)
        if not shape and not isinstance(key, Arr):
            return self.data[pos[0]]
        return Arr(shape, [self.data[p] for p in pos], self.dtype)

    def put(self, key, val):
        shape, pos = self.pick(key)
        new = list(self.data)
        for p, v in zip(pos, spread(val, shape).data):
            new[p] = v
        return Arr(self.shape, new, self.dtype)

    def reshape(self, shape):
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        if -1 in shape:
            k = 1
            for n in shape:
                k *= n if n != -1 else 1
            shape = tuple(len(self.data) // k if n == -1 and k else n for n in shape)
        k = 1
        for n in shape:
            k *= n
        if k != len(self.data):
            raise Fault("reshape of %s to %s" % (self.shape, shape))
        return Arr(shape, self.data, self.dtype)

    def T(self):
        sh = self.shape[::-1]
        return Arr.of(sh, lambda *i: self.at(*i[::-1]), self.dtype)


def spread(val, shape):
    """numpy broadcasting of a value to a shape"""
    if not isinstance(val, Arr):
        return Arr.of(shape, lambda *i: val)
    sh = val.shape
    while len(sh) > len(shape) and sh[0] == 1:
        sh = sh[1:]
    if len(sh) > len(shape):
        raise Fault("cannot broadcast %s to %s" % (val.shape, shape))
    v = Arr(sh, val.data)
    off = len(shape) - len(sh)
    for a, b in zip(sh, shape[off:]):
        if a not in (1, b):
            raise Fault("cannot broadcast %s to %s" % (val.shape, tuple(shape)))
    return Arr.of(shape, lambda *i: v.at(*[x if n != 1 else 0 for x, n in zip(i[off:], sh)]), val.dtype)


BIN = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
       "%": operator.mod, "**": operator.pow}
FUN = {"math.ceil": math.ceil, "math.floor": math.floor, "numpy.ceil": lambda x: float(math.ceil(x)),
       "numpy.floor": lambda x: float(math.floor(x)), "abs": abs, "min": min, "max": max, "int": int, "float": float,
       "bool": bool, "round": round, "divmod": divmod, "sum": sum, "sorted": sorted, "list": list, "tuple": tuple,
       "numpy.min": min, "numpy.max": max, "numpy.abs": abs, "ceil": math.ceil, "numpy.minimum": min, "numpy.maximum": max}
LOOPY = {}


def canon(it):
    """the iterable itself, without list(), iter() or enumerate() around it"""
    while True:
        if extname(it) in ("list", "tuple", "iter", "enumerate") and len(cargs(it)) == 1:
            it = cargs(it)[0]
        elif isinstance(it, T) and it.op == "list" and len(it.args) == 1 and isinstance(it.args[0], T) and it.args[0].op == "star":
            it = it.args[0].args[0]
        else:
            return it


def loopy(t):
    """the term depends on a loop element"""
    if not isinstance(t, T):
        return any(loopy(x) for x in t) if isinstance(t, tuple) else False
    r = LOOPY.get(t)
    if r is None:
        r = t.op in ("elem", "idx", "lv") or any(loopy(a) for a in t.args)
        LOOPY[t] = r
    return r


class Eval(object):
    """env: terms -> values; call(ev, term): resolves calls of the analysed program (raise Unknown to decline)"""
    def __init__(self, env, call=None, isinst=None):
        self.env = env
        self.call = call
        self.isinst = isinst
        self.memo = {}
        self.hold = []
        self.loops = {}
        self.lvs = {}

    # -- loops
    def seq(self, t):
        v = self.ev(canon(t))
        if isinstance(v, Arr):
            return [v.get(i) for i in range(v.shape[0])]
        if isinstance(v, (list, tuple, range)):
            return list(v)
        raise Unknown("iteration over " + fmt(t)[:60])

    def bind(self, it, depth, i, x):
        it = canon(it)
        self.loops["elem", it, depth] = x
        self.loops["idx", it, depth] = i
        if extname(it) == "zip" and isinstance(x, tuple):
            for a, y in zip(cargs(it), x):
                self.bind(a, depth, i, y)

    def unbind(self, it, depth):
        it = canon(it)
        self.loops.pop(("elem", it, depth), None)
        self.loops.pop(("idx", it, depth), None)
        if extname(it) == "zip":
            for a in cargs(it):
                self.unbind(a, depth)

    def iterate(self, it, depth):
        """binds the loop's element, once per iteration; an outer loop over the same is bound again afterwards"""
        saved = dict(self.loops)
        for _ in self.iterate1(it, depth):
            yield
        for k, v in saved.items():
            self.loops.setdefault(k, v)

    def iterate1(self, it, depth):
        c = canon(it)
        if c.op == "list" and len(c.args) == 1 and c.args[0].op == "each":
            # a comprehension or generator: its elements are the values of the inner iteration
            e = c.args[0]
            for _ in self.iterate(e.args[0], e.args[1]):
                x = self.loops.get(("elem", canon(e.args[0]), e.args[1]))
                if e.args[1] != depth:
                    self.bind(e.args[0], depth, 0, x)
                if self.holds(e.args[2]):
                    if isinstance(e.args[3], T) and e.args[3].op == "each":
                        for _ in self.iterate(mk("list", e.args[3]), e.args[3].args[1]):
                            yield
                    else:
                        yield
                if e.args[1] != depth:
                    self.unbind(e.args[0], depth)
            return
        for i, x in enumerate(self.seq(it)):
            self.bind(it, depth, i, x)
            yield
        self.unbind(it, depth)

    def around(self, loops, conds, depth=0):
        """runs once per iteration of the loops (outermost first) in which the conditions hold"""
        if depth == len(loops):
            if self.holds(conds):
                yield
            return
        it = loops[depth]
        if ("elem", canon(it), depth) in self.loops:
            for _ in self.around(loops, conds, depth + 1):
                yield
            return
        for _ in self.iterate(it, depth):
            for _ in self.around(loops, conds, depth + 1):
                yield

    def entries(self, ents):
        """list entries in execution order"""
        i = 0
        while i < len(ents):
            e = ents[i]
            if isinstance(e, T) and e.op == "each":
                g = [e]
                while i + 1 < len(ents) and ents[i + 1].op == "each" and ents[i + 1].args[:2] == e.args[:2]:
                    i += 1
                    g.append(ents[i])
                it, depth = e.args[:2]
                for _ in self.iterate(it, depth):
                    for h in g:
                        if self.holds(h.args[2]):
                            for y in self.entries((h.args[3],)):
                                yield y
            elif isinstance(e, T) and e.op == "star":
                for x in self.seq(e.args[0]):
                    yield ("value", x)
            elif isinstance(e, T) and e.op == "set":
                yield ("set", self.ev(e.args[0]), self.ev(e.args[1]))
            else:
                yield ("value", self.ev(e))
            i += 1

    def holds(self, conds):
        late = None
        for c, v in conds:
            try:
                if self.truth(c) != bool(v):
                    return False
            except (Unknown, Fault) as e:
                late = late or e
        if late is not None:
            raise late
        return True

    def truth(self, t):
        v = self.ev(t)
        if isinstance(v, Arr):
            if len(v.data) == 1 and isinstance(v.data[0], bool):
                return v.data[0]
            raise Unknown("truth of an array")
        if isinstance(v, Label):
            raise Unknown("truth of a cell value")
        return bool(v)

    def ev(self, t):
        if isinstance(t, tuple):
            return tuple(self.ev(x) for x in t)
        if not isinstance(t, T):
            return t
        if t in self.lvs:
            return self.lvs[t]
        if t.op in ("elem", "idx"):
            k = (t.op, canon(t.args[0]), t.args[1])
            if k in self.loops:
                return self.loops[k]
        if t in self.env:
            return self.env[t]
        if t in self.memo:
            return self.memo[t]
        v = self.compute(t)
        if not loopy(t):
            self.memo[t] = v
            self.hold.append(t)
        return v

    def compute(self, t):
        op = t.op
        if is_const(t):
            return cval(t)
        if self.call is not None and op in ("call", "mcall", "attr", "new", "len", "item", "isinstance", "hasattr"):
            try:
                return self.call(self, t)
            except NotImplementedError:
                pass
        if op == "bin" and t.args[0] in BIN:
            a, b = self.ev(t.args[1]), self.ev(t.args[2])
            if isinstance(a, (Label, Arr)) or isinstance(b, (Label, Arr)):
                raise Unknown("arithmetic on cell values")
            if isinstance(a, slice) or isinstance(b, slice):
                raise Fault("arithmetic on a slice")
            try:
                return BIN[t.args[0]](a, b)
            except (TypeError, ZeroDivisionError, OverflowError) as e:
                raise Fault(str(e))
        if op == "un":
            v = self.ev(t.args[1])
            if isinstance(v, Arr) and all(isinstance(x, bool) for x in v.data) and t.args[0] == "~":
                return Arr(v.shape, [not x for x in v.data])
            if isinstance(v, (int, float)) and t.args[0] in "+-":
                return -v if t.args[0] == "-" else v
        if op == "cmp":
            a, b = self.ev(t.args[1]), self.ev(t.args[2])
            if isinstance(a, (Label, Arr)) or isinstance(b, (Label, Arr)):
                raise Unknown("comparison of cell values")
            try:
                return {"==": operator.eq, "<": operator.lt, "<=": operator.le}[t.args[0]](a, b)
            except TypeError as e:
                raise Fault(str(e))
        if op == "not":
            return not self.truth(t.args[0])
        if op in ("and", "or"):
            v = None
            for a in t.args:
                v = self.ev(a)
                if bool(v) != (op == "and"):
                    return v
            return v
        if op == "isnone":
            return self.ev(t.args[0]) is None
        if op == "is":
            return self.ev(t.args[0]) is self.ev(t.args[1])
        if op == "in":
            c = self.ev(t.args[1])
            if isinstance(c, (tuple, list, range)):
                return self.ev(t.args[0]) in c
        if op in ("tuple", "list"):
            out = [e[1] for e in self.pure(t.args)]
            return tuple(out) if op == "tuple" else out
        if op == "ext":
            return str(t.args[-1])
        if op == "slice":
            return slice(*[self.ev(a) for a in t.args])
        if op == "len":
            v = self.ev(t.args[0])
            if isinstance(v, Arr):
                return v.shape[0]
            if isinstance(v, (tuple, list, range)):
                return len(v)
        if op == "item":
            b, k = self.ev(t.args[0]), self.ev(t.args[1])
            if isinstance(b, Arr):
                return b.get(k)
            if isinstance(b, (tuple, list, range)) and isinstance(k, (int, slice)):
                try:
                    return b[k]
                except IndexError:
                    raise Fault("index out of range: " + fmt(t)[:60])
        if op == "attr":
            v = self.ev(t.args[0])
            if isinstance(v, Arr) and t.args[1] in ("shape", "ndim", "size", "T", "dtype"):
                return {"shape": v.shape, "ndim": v.ndim, "size": len(v.data), "dtype": v.dtype}[t.args[1]] \
                    if t.args[1] != "T" else v.T()
            if isinstance(v, Label) and t.args[1] in ("ndim", "shape"):
                return {"ndim": 0, "shape": ()}[t.args[1]]
            if isinstance(v, slice) and t.args[1] in ("start", "stop", "step"):
                return getattr(v, t.args[1])
        if op in ("arr", "upd"):
            b = self.ev(t.args[0])
            if not isinstance(b, Arr):
                if isinstance(b, list) and op == "arr":
                    b = list(b)
                    for e in self.entries(t.args[1:]):
                        if e[0] != "set":
                            raise Unknown("array entry")
                        b[e[1]] = e[2]
                    return b
                if isinstance(b, list) and op == "upd":
                    b, k = list(b), self.ev(t.args[1])
                    if not isinstance(k, (int, slice)):
                        raise Unknown("list index")
                    try:
                        b[k] = self.ev(t.args[2])
                    except IndexError:
                        raise Fault("index %r out of a list of %d" % (k, len(b)))
                    return b
                raise Unknown("update of " + fmt(t.args[0])[:60])
            if op == "upd":
                return b.put(self.ev(t.args[1]), self.ev(t.args[2]))
            for e in self.entries(t.args[1:]):
                if e[0] != "set":
                    raise Unknown("array entry")
                b = b.put(e[1], e[2])
            return b
        if op == "fold":
            it, depth, lv, init, clauses = t.args[:5]
            v = self.ev(init)
            plain = lv.op != "lv"
            for _ in self.iterate(it, depth):
                self.lvs[lv] = v
                if plain:
                    self.memo = {}
                for cs, val in clauses:
                    if self.holds(cs):
                        v = self.ev(val)
                        break
            self.lvs.pop(lv, None)
            if plain:
                self.memo = {}
            return v
        if op == "each" and ("elem", canon(t.args[0]), t.args[1]) in self.loops:
            return self.ev(t.args[3])
        if op == "isinstance":
            v = self.ev(t.args[0])
            gs = t.args[1].args if t.args[1].op == "tuple" else (t.args[1],)
            return any(self.inst(v, g) for g in gs)
        n = extname(t)
        if n is not None:
            return self.builtin(t, n)
        if op == "mcall":
            return self.method(t)
        raise Unknown(fmt(t)[:200])

    def pure(self, ents):
        for e in self.entries(ents):
            if e[0] == "set":
                raise Unknown("list entry")
            yield e

    def inst(self, v, g):
        nm = str(g.args[-1]).split(".")[-1]
        tab = {"Integral": int, "int": int, "slice": slice, "tuple": tuple, "list": list, "ndarray": Arr,
               "Real": (int, float), "Number": (int, float), "float": float, "str": str, "bool": bool, "integer": ()}
        if isinstance(v, Label):
            return nm in ("Real", "Number", "Integral", "float")
        if nm not in tab:
            raise Unknown("isinstance " + nm)
        return isinstance(v, tab[nm])

    def args(self, t):
        pos, kw = [], {}
        for k, a in (t.args[1] if t.op == "call" else t.args[2]):
            if isinstance(a, T) and a.op == "star":
                pos.extend(self.seq(a.args[0]))
            elif isinstance(k, int):
                pos.append(self.ev(a))
            else:
                kw[k] = self.ev(a)
        return pos, kw

    def builtin(self, t, n):
        if n in ("range", "slice"):
            a, _ = self.args(t)
            a = [int(x) if isinstance(x, float) and x == int(x) and x is not True and n == "slice" else x for x in a]
            try:
                if n == "range" and any(isinstance(x, float) for x in a):
                    if loop_counter(t):
                        return frange(*a)
                    raise Fault("range of floating-point numbers")
                return range(*a) if n == "range" else slice(*a)
            except (TypeError, ValueError) as e:
                raise Fault(str(e))
        if n in FUN:
            a, kw = self.args(t)
            if kw or any(isinstance(x, (Arr, Label)) for x in a):
                raise Unknown(n)
            try:
                return FUN[n](*a)
            except (TypeError, ValueError) as e:
                raise Fault(str(e))
        if n == "enumerate":
            return list(enumerate(self.seq(cargs(t)[0])))
        if n == "zip":
            return list(zip(*[self.seq(a) for a in cargs(t)]))
        if n == "reversed":
            return self.seq(cargs(t)[0])[::-1]
        if n in ("itertools.product", "product"):
            return list(product(*[self.seq(a) for a in cargs(t)]))
        if n == "getattr" and is_const(cargs(t)[1]):
            v = self.ev(cargs(t)[0])
            if isinstance(v, Arr) and cval(cargs(t)[1]) in ("ndim", "shape"):
                return getattr(v, cval(cargs(t)[1]))
            if isinstance(v, (int, float, Label)) and len(cargs(t)) == 3:
                return self.ev(cargs(t)[2])
        if n.startswith("numpy."):
            return self.npy(t, n[6:])
        raise Unknown(fmt(t)[:80])

    def npy(self, t, n):
        a, kw = self.args(t)
        if n in ("empty", "zeros", "ones", "full"):
            shape = kw.get("shape", a[0] if a else None)
            shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
            if any(not isinstance(x, int) for x in shape):
                raise Fault("array of shape %s" % (shape,)) if any(isinstance(x, float) for x in shape) else Unknown(n)
            if any(x < 0 for x in shape):
                raise Fault("negative dimensions %s" % (shape,))
            k = 2 if n == "full" else 1
            dt = kw.get("dtype", a[k] if len(a) > k else None)
            if n == "full":
                return Arr(shape, spread(kw.get("fill_value", a[1] if len(a) > 1 else None), shape).data, dt)
            return Arr.of(shape, lambda *i: {"empty": EMPTY, "zeros": 0, "ones": 1}[n], dt)
        if n in ("asarray", "array", "asanyarray", "ascontiguousarray", "atleast_2d", "atleast_3d", "atleast_1d"):
            v = a[0]
            if not isinstance(v, Arr):
                v = Arr((), [v]) if isinstance(v, (int, float, Label)) else None
            if v is None:
                raise Unknown(n)
            if n == "atleast_3d":
                v = Arr({0: (1, 1, 1), 1: (1,) + v.shape + (1,), 2: v.shape + (1,)}.get(v.ndim, v.shape), v.data, v.dtype)
            if n == "atleast_2d":
                v = Arr({0: (1, 1), 1: (1,) + v.shape}.get(v.ndim, v.shape), v.data, v.dtype)
            if n == "atleast_1d" and v.ndim == 0:
                v = Arr((1,), v.data, v.dtype)
            dt = kw.get("dtype", a[1] if len(a) > 1 else None)
            return Arr(v.shape, v.data, dt if dt is not None else v.dtype)
        if n == "broadcast_to":
            return spread(a[0], tuple(a[1]))
        if n == "reshape" and isinstance(a[0], Arr):
            return a[0].reshape(a[1])
        if n == "copy" and isinstance(a[0], Arr):
            return a[0]
        if n in ("vstack", "concatenate", "row_stack"):
            xs = [spread(x, (1,) + x.shape) if isinstance(x, Arr) and x.ndim == 1 and n != "concatenate" else x for x in a[0]]
            if kw or not all(isinstance(x, Arr) for x in xs) or len({x.shape[1:] for x in xs}) != 1:
                raise Unknown(n)
            return Arr((sum(x.shape[0] for x in xs),) + xs[0].shape[1:], [y for x in xs for y in x.data])
        if n == "flipud" and isinstance(a[0], Arr):
            return a[0].get((slice(None, None, -1),))
        if n == "fliplr" and isinstance(a[0], Arr):
            return a[0].get((slice(None), slice(None, None, -1)))
        if n == "transpose" and isinstance(a[0], Arr) and len(a) == 1 and not kw:
            return a[0].T()
        if n == "squeeze" and isinstance(a[0], Arr) and not kw:
            return a[0].reshape([k for k in a[0].shape if k != 1])
        if n == "dtype":
            return a[0]
        if n == "expand_dims" or n == "newaxis":
            raise Unknown(n)
        raise Unknown("numpy." + n)

    def method(self, t):
        v = self.ev(t.args[0])
        n = t.args[1]
        a, kw = self.args(t)
        if isinstance(v, slice) and n == "indices":
            x = a[0] if a else list(kw.values())[0]
            return v.indices(x)
        if isinstance(v, Arr):
            if n == "reshape":
                return v.reshape(a[0] if len(a) == 1 else tuple(a))
            if n == "copy":
                return v
            if n == "astype":
                return Arr(v.shape, v.data, a[0] if a else kw.get("dtype"))
            if n == "transpose" and not a:
                return v.T()
            if n in ("ravel", "flatten"):
                return v.reshape((-1,))
            if n == "squeeze" and not a and not kw:
                return v.reshape([k for k in v.shape if k != 1])
            if n == "any" and not a and not kw and all(isinstance(x, bool) for x in v.data):
                return any(v.data)
            if n == "all" and not a and not kw and all(isinstance(x, bool) for x in v.data):
                return all(v.data)
            if n == "fill":
                raise Unknown("fill")
        if isinstance(v, tuple) and n in ("index", "count"):
            return getattr(v, n)(*a)
        raise Unknown(fmt(t)[:80])


class Label(tuple):
    """the value of one source cell"""
    def __repr__(self):
        return "cell" + tuple.__repr__(self)


EMPTY = Label(("uninitialised",))


def loop_counter(t):
    return True


def frange(a, b=None, c=1):
    """numbers counted by a while loop with a floating-point bound"""
    if b is None:
        a, b = 0, a
    out = []
    while (a < b if c > 0 else a > b) and len(out) < 10000:
        out.append(a)
        a = a + c
    return out
