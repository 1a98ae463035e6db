"""Cell provenance: from which source cells the cells of an array come (offsets, losses and stencils per axis)."""
from .poly import Norm, Rat, rconst, ratom
from .terms import T, mk, is_const, cval, NONE, walk

ELEMENTWISE = {"sqrt", "arctan2", "isnan", "abs", "absolute", "float32", "float64", "logical_not", "logical_and",
               "logical_or", "broadcast_to", "atleast_3d", "asarray", "array", "where", "dstack", "copy", "cos", "sin",
               "arctan", "ma.masked_where", "nan_to_num", "hypot", "square", "power", "degrees", "radians", "exp",
               "log", "maximum", "minimum", "clip", "isfinite", "all", "any", "full_like", "zeros_like", "ones_like",
               "empty_like", "ascontiguousarray", "asfarray", "round", "floor", "multiply", "add", "subtract",
               "divide", "negative"}
METHODS = {"astype", "copy", "clip", "round", "view"}


class Prov(object):
    """grid: source object term; axes: per axis a set of (lo, hi) cells dropped at each end; flip: axes reversed"""
    __slots__ = ("grid", "axes", "flip")

    def __init__(self, grid, axes, flip=(False, False)):
        self.grid = grid
        self.axes = axes
        self.flip = flip


def whole(g):
    z = (rconst(0), rconst(0))
    return Prov(g, ([z], [z]))


class Unknown(Exception):
    pass


class Provenance(object):
    def __init__(self, norm, isgrid, size=None):
        self.norm = norm
        self.isgrid = isgrid       # term -> bool
        self.memo = {}

    def __call__(self, t):
        """Prov, None (no cells of a grid) or raises Unknown"""
        if t in self.memo:
            r = self.memo[t]
            if isinstance(r, Unknown):
                raise r
            return r
        try:
            r = self.go(t)
        except RecursionError:
            r = Unknown()
        except Unknown as e:
            self.memo[t] = e
            raise
        self.memo[t] = r
        return r

    def join(self, ts):
        out = None
        for t in ts:
            q = self(t)
            if q is None:
                continue
            if out is None:
                out = q
                continue
            if q.flip != out.flip:
                raise Unknown()
            out = Prov(out.grid, tuple(uniq(a + b) for a, b in zip(out.axes, q.axes)), out.flip)
        return out

    def go(self, t):
        o = t.op
        if o == "const" or o in ("ext", "func", "global", "class"):
            return None
        if o == "attr":
            if self.isgrid(t.args[0]):
                if t.args[1] in ("data_mask", "data_mask_full", "values"):
                    return whole(t.args[0])
                return None
            return None
        if self.isgrid(t):
            return whole(t)
        if o == "param":
            return None
        if o == "item":
            b, k = t.args
            if is_const(k) and b.op in ("tuple", "list"):
                return self(b.args[cval(k)])
            if b.op == "new" and arg_values(b) is not None:
                q = self(arg_values(b))
            else:
                q = self(b)
            if q is None:
                return None
            ks = k.args if k.op == "tuple" else (k,)
            axes = list(q.axes)
            flip = list(q.flip)
            for n, s in enumerate(ks[:2]):
                if s.op == "slice":
                    lo, hi, st = s.args
                    if st is not NONE and not (is_const(st) and cval(st) in (1, -1)):
                        raise Unknown()
                    if st is not NONE and cval(st) == -1:
                        if lo is not NONE or hi is not NONE:
                            raise Unknown()
                        flip[n] = not flip[n]
                        continue
                    a = self.low(lo)
                    b2 = self.high(hi)
                    axes[n] = [(x + a if a is not None else None, (y + b2) if b2 is not None and y is not None else None)
                               for x, y in axes[n]]
                else:
                    raise Unknown()
            return Prov(q.grid, tuple(axes), tuple(flip))
        if o in ("bin",):
            return self.join(t.args[1:])
        if o in ("un", "not"):
            return self.join([a for a in t.args if isinstance(a, T)])
        if o == "cmp":
            return self.join(t.args[1:])
        if o == "mcall":
            if t.args[1] in METHODS:
                return self(t.args[0])
            if t.args[1] in ("min", "max", "mean", "sum", "std", "any", "all") and not t.args[2]:
                return None
            if self.has(t):
                raise Unknown()
            return None
        if o == "call":
            f = t.args[0]
            args = [v for _, v in t.args[1]]
            if f.op in ("ext", "builtin"):
                n = f.args[0].split(".", 1)[-1]
                if n == "pad" and f.args[0] == "numpy.pad":
                    return self.pad(args)
                if n in ELEMENTWISE:
                    pos = [v for k, v in t.args[1] if isinstance(k, int)]
                    flat = []
                    for a in pos:
                        if a.op in ("tuple", "list") and n in ("array", "dstack", "asarray"):
                            flat.extend(a.args)
                        else:
                            flat.append(a)
                    if n == "where" and len(pos) == 3:
                        flat = pos[1:]
                    if n in ("broadcast_to", "clip", "all", "any", "full_like"):
                        flat = flat[:1]
                    return self.join(flat)
                if n == "cross":
                    return self.join([v for k, v in t.args[1] if isinstance(k, int)])
            if self.has(t):
                raise Unknown()
            return None
        if o == "each":
            return self(t.args[3])
        if o in ("list", "tuple"):
            return self.join(t.args)
        if o == "len" or o == "isinstance":
            return None
        if self.has(t):
            raise Unknown()
        return None

    def has(self, t):
        return any(self.isgrid(x) for x in walk(t))

    def low(self, lo):
        if lo is NONE:
            return rconst(0)
        if is_const(lo):
            return rconst(cval(lo)) if cval(lo) >= 0 else None
        return self.norm(lo)

    def high(self, hi):
        if hi is NONE:
            return rconst(0)
        if is_const(hi):
            return rconst(-cval(hi)) if cval(hi) < 0 else None
        return None

    def pad(self, args):
        q = self(args[0])
        if q is None:
            return None
        w = args[1]
        ws = None
        if w.op in ("tuple", "list") and len(w.args) == 2 and all(x.op in ("tuple", "list") and len(x.args) == 2
                                                                 for x in w.args):
            ws = [[self.norm(y).const() for y in x.args] for x in w.args]
        elif is_const(w):
            ws = [[cval(w)] * 2] * 2
        elif w.op in ("tuple", "list") and len(w.args) == 2:
            ws = [[self.norm(x).const() for x in w.args]] * 2
        if ws is None or any(v is None for x in ws for v in x):
            raise Unknown()
        axes = []
        for a, (l, h) in zip(q.axes, ws):
            axes.append([(None if x is None else x - rconst(l), None if y is None else y - rconst(h)) for x, y in a])
        return Prov(q.grid, tuple(axes), q.flip)


def uniq(xs):
    out = []
    for x in xs:
        if not any(eq(x[0], y[0]) and eq(x[1], y[1]) for y in out):
            out.append(x)
    return out


def eq(a, b):
    if a is None or b is None:
        return a is b
    return a.same(b)


def arg_values(t):
    for k, v in t.args[1]:
        if k == "values":
            return v
    return None
