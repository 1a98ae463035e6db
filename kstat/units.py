"""Dimension inference over value terms of the raster code: world x (X), world y (Y), row count (R), column count (C).
A unit is an exponent vector over those four; `None` is unknown (absorbs), `NUM` a pure number (adapts)."""
from .terms import T, is_const, cval, walk, mk

NUM = ()


def unit(**k):
    return tuple(sorted((a, e) for a, e in k.items() if e))


X, Y, R, C = unit(X=1), unit(Y=1), unit(R=1), unit(C=1)
TR = (X, Y, unit(X=1, C=-1), unit(Y=1, R=-1), unit(X=1, R=-1), unit(Y=1, C=-1))
RES = (TR[2], TR[3])


def umul(a, b, s=1):
    if a is None or b is None:
        return None
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + s * e
    return tuple(sorted((k, e) for k, e in d.items() if e))


def squared(u):
    """X^2, Y^2, XY ... : lengths squared mix"""
    return bool(u) and sum(abs(e) for _, e in u) >= 2


def coarse(u):
    """one cell of a resolution counts as a length"""
    return tuple((k, e) for k, e in u if e > 0 or k in "XY")


def clash(a, b):
    if not a or not b or a == b:
        return False
    if a in RES and b in RES:
        return False
    a, b = coarse(a), coarse(b)
    if not a or not b or a == b:
        return False
    ka, kb = squared(a) and all(e > 0 for _, e in a), squared(b) and all(e > 0 for _, e in b)
    if ka and kb:
        return False
    return True


def name(u):
    if u is None:
        return "?"
    if u == NUM:
        return "number"
    n = {"X": "x", "Y": "y", "R": "rows", "C": "columns"}
    return "*".join(n[k] + ("" if e == 1 else "^%d" % e) for k, e in u)


SAME = {"abs", "float", "int", "round", "sum", "min", "max", "sorted", "list", "tuple",
        "numpy.abs", "numpy.absolute", "numpy.floor", "numpy.ceil", "numpy.round", "numpy.rint", "numpy.around",
        "numpy.array", "numpy.asarray", "numpy.min", "numpy.max", "numpy.amin", "numpy.amax", "numpy.minimum",
        "numpy.maximum", "numpy.float64", "numpy.int32", "numpy.int64", "math.ceil", "math.floor", "math.fabs",
        "numpy.atleast_1d", "numpy.ravel", "numpy.trunc", "numpy.nanmin", "numpy.nanmax", "numpy.copy",
        "numpy.fabs", "numpy.broadcast_to", "numpy.linspace", "numpy.concatenate", "numpy.hstack", "numpy.float32",
        "numpy.fmin", "numpy.fmax", "numpy.mean", "numpy.median", "numpy.sort", "numpy.unique"}
FIRST = {"numpy.round", "round", "numpy.around", "numpy.broadcast_to", "numpy.array", "numpy.asarray", "numpy.mean"}
JOIN = {"min", "max", "numpy.minimum", "numpy.maximum", "numpy.fmin", "numpy.fmax"}
METHSAME = {"min", "max", "ravel", "flatten", "copy", "astype", "reshape", "squeeze", "round", "mean", "tolist",
            "transpose"}


class Seq(object):
    """a value whose items have known units (transform, size, extent...)"""
    def __init__(self, *items):
        self.items = items


class Units(object):
    def __init__(self, seed, on_clash=None):
        """seed(term) -> unit tuple, Seq or None"""
        self.seed = seed
        self.memo = {}
        self.clashes = []

    def __call__(self, t):
        u = self.val(t)
        return None if isinstance(u, Seq) else u

    def val(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        u = self.seed(t)
        if u is None:
            try:
                u = self.go(t)
            except RecursionError:
                u = None
        self.memo[t] = u
        return u

    def need(self, a, b, t, what):
        if not isinstance(a, Seq) and not isinstance(b, Seq) and clash(a, b):
            self.clashes.append((t, a, b, what))

    def join(self, us, t, what):
        out = None
        num = True
        for u in us:
            if isinstance(u, Seq):
                return None
            if u is None:
                num = False
            elif u != NUM:
                num = False
                if out is not None:
                    self.need(out, u, t, what)
                out = u if out is None else out
        return NUM if num and us else out

    def go(self, t):
        o = t.op
        if o == "const":
            return NUM if isinstance(cval(t), (int, float)) else None
        if o == "bin":
            k, a, b = t.args
            x, y = self(a), self(b)
            if k in ("+", "-"):
                return self.join([x, y], t, "sum")
            if k == "*":
                return umul(x, y)
            if k == "/":
                return umul(x, y, -1)
            if k == "//":
                return umul(x, y, -1)
            if k == "%":
                return x
            if k == "**" and is_const(b) and isinstance(cval(b), int):
                u = NUM
                for _ in range(min(abs(cval(b)), 4)):
                    u = umul(u, x)
                return u
            return None
        if o == "un":
            return self(t.args[1])
        if o == "cmp":
            self.join([self(t.args[1]), self(t.args[2])], t, "comparison")
            return None
        if o == "call" and t.args[0].op in ("ext", "builtin"):
            f = t.args[0].args[0]
            args = [v for k, v in t.args[1] if isinstance(k, int)]
            if not args:
                return None
            if f in ("range", "numpy.arange"):
                return self.join([self(a) for a in args[:2]], t, "range")
            if f == "numpy.where" and len(args) == 3:
                return self.join([self(args[1]), self(args[2])], t, "where")
            if f in SAME:
                if f in FIRST:
                    args = args[:1]
                if f == "numpy.linspace":
                    args = args[:2]
                us = []
                for a in args:
                    if a.op in ("list", "tuple", "gen"):
                        us.extend(self(x.args[-1]) if x.op == "each" else self(x) for x in a.args)
                    else:
                        us.append(self(a))
                return self.join(us, t, "minimum/maximum" if f.split(".")[-1].lstrip("nafm") in ("in", "ax", "inimum", "aximum") else "list") \
                    if f not in ("list", "tuple", "sorted", "numpy.array", "numpy.asarray", "numpy.concatenate",
                                 "numpy.hstack") else (us[0] if len(set(us)) == 1 else None)
            return None
        if o == "mcall" and t.args[1] in METHSAME:
            return self(t.args[0])
        if o == "item":
            b = self.val(t.args[0])
            k = t.args[1]
            if isinstance(b, Seq):
                if is_const(k) and isinstance(cval(k), int) and -len(b.items) <= cval(k) < len(b.items):
                    return b.items[cval(k)]
                if k.op == "slice" and all(is_const(x) for x in k.args):
                    v = [cval(x) for x in k.args]
                    return Seq(*b.items[slice(*v)])
                return None
            if t.args[0].op == "call" and t.args[0].args[0].op == "ext" and \
                    t.args[0].args[0].args[0] == "numpy.meshgrid" and is_const(k) and isinstance(cval(k), int):
                args = [v for q, v in t.args[0].args[1] if isinstance(q, int)]
                return self(args[cval(k)]) if 0 <= cval(k) < len(args) else None
            if isinstance(b, tuple):
                return b
            return None
        if o in ("elem",):
            b = self.val(t.args[0])
            return None if isinstance(b, Seq) else b
        if o in ("list", "tuple"):
            if t.args and not any(x.op in ("each", "star") for x in t.args):
                vs = [self.val(x) for x in t.args]
                return Seq(*vs)
            if len(t.args) == 1 and t.args[0].op == "each":
                return self(t.args[0].args[-1])
            return None
        if o == "phi":
            us = {self(x) for x in t.args if isinstance(x, T)} - {None, NUM}
            return us.pop() if len(us) == 1 else None
        if o == "fold":
            return self(t.args[3])
        if o == "slice":
            self.join([self(x) for x in t.args[:2]], t, "slice bounds")
            return None
        return None
