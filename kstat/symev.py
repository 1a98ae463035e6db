"""Formulas: value terms resolved, at one instance of their integer sizes, to rational functions of symbolic numbers.

`SymEval` extends the index-map evaluator: the cells of arrays are rational functions (`Rat`) over atoms; transcendental
functions are canonical atoms of their arguments' normal forms.  Nothing of the analysed program is executed."""
import math
from fractions import Fraction
from itertools import product

from .finite import Arr, Eval, Fault, Label, Unknown, canon, spread, EMPTY, FUN
from .iospec import cargs, extname
from .poly import Rat, TooBig, ratom, rconst
from .terms import T, cval, fmt, is_const, mk

NAN = float("nan")


def num(x):
    """x as a rational function"""
    if isinstance(x, Rat):
        return x
    if isinstance(x, bool):
        return rconst(int(x))
    if isinstance(x, (int, Fraction)):
        return rconst(x)
    if isinstance(x, float) and x == x and abs(x) != float("inf"):
        return rconst(Fraction(x))
    raise Unknown("number %r" % (x,))


def isnum(x):
    return isinstance(x, (int, float, Fraction, Rat)) and not isinstance(x, bool)


def isnan(x):
    return isinstance(x, float) and x != x


class Funs(object):
    """registry of opaque function values: equal arguments give the same atom"""
    def __init__(self):
        self.tab = []
        self.signed = set()     # atoms that may be negative
        self.instances = None   # values of the atoms to try
        self.extra = {}         # an interpretation of opaque functions

    def __call__(self, name, *args):
        args = tuple(a if not isnum(a) else num(a) for a in args)
        for n, a, atom in self.tab:
            if n == name and len(a) == len(args) and all(
                    (x.same(y) if isinstance(x, Rat) and isinstance(y, Rat) else x is y or
                     (not isinstance(x, Rat) and not isinstance(y, Rat) and x == y)) for x, y in zip(a, args)):
                return atom
        atom = ratom("%s#%d" % (name, len(self.tab)))
        self.tab.append((name, args, atom))
        return atom

    def entry(self, key):
        for n, a, atom in self.tab:
            if key in atom.atoms():
                return n, a
        return None


PI = ratom("pi")
UF = {"sqrt": "sqrt", "sin": "sin", "cos": "cos", "tan": "tan", "arctan": "atan", "atan": "atan", "arctan2": "atan2",
      "atan2": "atan2", "sinh": "sinh", "cosh": "cosh", "log": "log", "exp": "exp", "arcsin": "asin", "asin": "asin",
      "arccos": "acos", "acos": "acos", "abs": "abs", "fabs": "abs", "absolute": "abs", "hypot": "hypot",
      "arcsinh": "asinh", "asinh": "asinh", "arctanh": "atanh", "atanh": "atanh", "tanh": "tanh", "floor": "floor"}
MATHF = {"sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "tan": math.tan, "atan": math.atan, "atan2": math.atan2,
         "sinh": math.sinh, "cosh": math.cosh, "log": math.log, "exp": math.exp, "asin": math.asin, "acos": math.acos,
         "abs": abs, "hypot": math.hypot, "asinh": math.asinh, "atanh": math.atanh, "tanh": math.tanh,
         "floor": math.floor, "min": min, "max": max, "int": int, "round": round, "trunc": math.trunc,
         "mod": lambda a, b: a % b, "pow": math.pow}


class SymEval(Eval):
    def __init__(self, env, call=None, funs=None):
        Eval.__init__(self, env, call)
        self.funs = funs or Funs()

    # -- elementwise arithmetic
    def el(self, f, *xs):
        """f over the cells of broadcast operands"""
        arrs = [x for x in xs if isinstance(x, Arr)]
        if not arrs:
            return f(*xs)
        nd = max(a.ndim for a in arrs)
        shape = []
        for k in range(nd):
            n = 1
            for a in arrs:
                d = k - (nd - a.ndim)
                if d >= 0 and a.shape[d] != 1:
                    if n not in (1, a.shape[d]):
                        raise Fault("operands of shapes %s" % ([a.shape for a in arrs],))
                    n = a.shape[d]
            shape.append(n)
        ys = [spread(x, tuple(shape)) for x in xs]
        return Arr(tuple(shape), [f(*[y.data[i] for y in ys]) for i in range(len(ys[0].data))])

    def lift(self, x):
        """lists of numbers as arrays"""
        if isinstance(x, (list, tuple)):
            xs = [self.lift(y) for y in x]
            if all(isinstance(y, Arr) for y in xs) and xs:
                if len({y.shape for y in xs}) != 1:
                    raise Unknown("ragged array")
                return Arr((len(xs),) + xs[0].shape, [d for y in xs for d in y.data])
            if any(isinstance(y, Arr) for y in xs):
                raise Unknown("ragged array")
            return Arr((len(xs),), xs)
        if isinstance(x, range):
            return Arr((len(x),), list(x))
        return x

    def op2(self, o, a, b):
        if isinstance(a, bool) and isinstance(b, bool) and o in "&|^":
            return {"&": a and b, "|": a or b, "^": a != b}[o]
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, Label) or isinstance(b, Label) or not isnum(a) or not isnum(b):
            raise Unknown("arithmetic on %r" % ((a if not isnum(a) else b),))
        if isnan(a) or isnan(b):
            return NAN
        if isinstance(a, int) and isinstance(b, int) and o != "/":
            try:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b,
                        "%": lambda: a % b, "**": lambda: a ** b, "&": lambda: a & b, "|": lambda: a | b,
                        "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b}[o]()
            except (ZeroDivisionError, ValueError) as e:
                raise Fault(str(e))
        if abs_inf(a) or abs_inf(b):
            raise Unknown("infinite number")
        x, y = num(a), num(b)
        if o == "+":
            r = x + y
        elif o == "-":
            r = x - y
        elif o == "*":
            r = x * y
        elif o == "/":
            if y.zero():
                raise Unknown("division by zero")
            r = x / y
        elif o == "**":
            c = y.const()
            if c is not None and c.denominator == 1 and abs(c) <= 6:
                r = rconst(1)
                for _ in range(abs(int(c))):
                    r = r * x
                if c < 0:
                    r = rconst(1) / r
            elif c is not None and c == Fraction(1, 2):
                r = self.fun("sqrt", x)
            else:
                r = self.funs("pow", x, y)
        elif o in ("//", "%"):
            if y.zero():
                raise Unknown("division by zero")
            q = self.fun("floor", x / y)
            r = q if o == "//" else x - num(q) * y
        else:
            raise Unknown("operator " + o)
        return self.simple(r)

    def simple(self, r):
        """constants as Python numbers where they are integers"""
        c = r.const() if isinstance(r, Rat) else None
        if c is not None and c.denominator == 1:
            return int(c) if False else r
        return r

    def fun(self, name, *args):
        if any(isnan(a) for a in args):
            return NAN
        args = [num(a) for a in args]
        cs = [a.const() for a in args]
        if name == "abs":
            if cs[0] is not None:
                return rconst(abs(cs[0]))
            for n, a, atom in self.funs.tab:
                if n == "abs" and a[0].same(-args[0]):
                    return atom
        if name in ("floor", "trunc", "int") and cs[0] is not None:
            return rconst(math.floor(cs[0]) if name == "floor" else math.trunc(cs[0]))
        if name in ("sin", "tan", "atan", "asin", "sinh", "log1p") and cs[0] == 0:
            return rconst(0)
        if name in ("cos", "cosh", "exp") and cs[0] == 0:
            return rconst(1)
        if name == "sqrt" and cs[0] is not None and cs[0] >= 0:
            p, q = math.isqrt(cs[0].numerator), math.isqrt(cs[0].denominator)
            if p * p == cs[0].numerator and q * q == cs[0].denominator:
                return rconst(Fraction(p, q))
        if name == "hypot":
            return self.fun("sqrt", args[0] * args[0] + args[1] * args[1])
        return self.funs(name, *args)

    def mul(self, r):
        return r

    # -- terms
    def truth(self, t):
        v = self.ev(t)
        if isinstance(v, Rat):
            c = v.const()
            if c is None:
                raise Unknown("truth of a number")
            return bool(c)
        if isinstance(v, Arr) and not (len(v.data) == 1 and isinstance(v.data[0], bool)):
            raise Unknown("truth of an array")
        if isinstance(v, Arr):
            return v.data[0]
        return bool(v)

    def compare(self, o, a, b):
        if isinstance(a, Rat) or isinstance(b, Rat):
            if isnan(a) or isnan(b):
                return False
            if abs_inf(a) or abs_inf(b):
                if o == "==":
                    return False
                raise Unknown("infinite number")
            if not isnum(a) or not isnum(b):
                if o == "==":
                    raise Unknown("comparison")
                raise Fault("order of %r" % (a,))
            d = num(a) - num(b)
            c = d.const()
            if c is None:
                if o == "==" and False:
                    return False
                raise Unknown("order of symbolic numbers")
            return {"==": c == 0, "<": c < 0, "<=": c <= 0}[o]
        try:
            return {"==": lambda: a == b, "<": lambda: a < b, "<=": lambda: a <= b}[o]()
        except TypeError as e:
            raise Fault(str(e))

    def compute(self, t):
        op = t.op
        if is_const(t):
            v = cval(t)
            return v
        if self.call is not None and op in ("call", "mcall", "attr", "new", "len", "item", "isinstance", "hasattr", "ext", "global"):
            try:
                return self.call(self, t)
            except NotImplementedError:
                pass
        if op == "bin":
            a, b = self.ev(t.args[1]), self.ev(t.args[2])
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and t.args[0] == "+":
                if type(a) is not type(b):
                    raise Fault("sum of a list and a tuple")
                return a + b
            if isinstance(a, (list, tuple)) and isinstance(b, int) and t.args[0] == "*":
                return a * b
            if isinstance(b, (list, tuple)) and isinstance(a, int) and t.args[0] == "*":
                return b * a
            if isinstance(a, (list, tuple)) and isinstance(b, Arr):
                a = self.lift(a)
            if isinstance(b, (list, tuple)) and isinstance(a, Arr):
                b = self.lift(b)
            if t.args[0] == "@":
                return self.dot(a, b)
            return self.el(lambda x, y: self.op2(t.args[0], x, y), a, b)
        if op == "un":
            v = self.ev(t.args[1])
            if t.args[0] == "-":
                return self.el(lambda x: NAN if isnan(x) else -x, v)
            if t.args[0] == "+":
                return v
            if t.args[0] == "~":
                return self.el(lambda x: (not x) if isinstance(x, bool) else self.bad("~"), v)
        if op == "cmp":
            a, b = self.ev(t.args[1]), self.ev(t.args[2])
            if isinstance(a, Arr) or isinstance(b, Arr):
                return self.el(lambda x, y: self.compare(t.args[0], x, y), a, b)
            if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and t.args[0] == "==":
                return len(a) == len(b) and all(self.compare("==", x, y) for x, y in zip(a, b))
            return self.compare(t.args[0], a, b)
        if op == "ext" and str(t.args[-1]) in ("math.pi", "numpy.pi"):
            return PI
        if op == "ext" and str(t.args[-1]) in ("numpy.nan", "math.nan", "numpy.NaN", "numpy.NAN"):
            return NAN
        if op == "ext" and str(t.args[-1]) == "numpy.newaxis":
            return None
        if op == "attr" and t.args[1] == "T":
            v = self.ev(t.args[0])
            if isinstance(v, Arr):
                return v.T()
        if op == "item":
            b, k = self.ev(t.args[0]), self.ev(t.args[1])
            k = self.index(k)
            if isinstance(b, (tuple, list, range)) and isinstance(k, (int, slice)):
                try:
                    return b[k]
                except IndexError:
                    raise Fault("index out of range: " + fmt(t)[:60])
            if isinstance(b, Arr):
                return self.fancy(b, k)
            if isinstance(b, dict):
                try:
                    return b[k]
                except (KeyError, TypeError):
                    raise Fault("key %r" % (k,))
        return Eval.compute(self, t)

    def bad(self, w):
        raise Unknown(w)

    def index(self, k):
        if isinstance(k, tuple):
            return tuple(self.index(x) for x in k)
        if isinstance(k, Rat):
            c = k.const()
            if c is None or c.denominator != 1:
                raise Unknown("symbolic index")
            return int(c)
        return k

    def fancy(self, b, k):
        """advanced indices by lists of integers along the first axis"""
        ks = k if isinstance(k, tuple) else (k,)
        if len(ks) == 1 and isinstance(ks[0], (list, Arr)) and not (isinstance(ks[0], Arr) and ks[0].data and isinstance(ks[0].data[0], bool)):
            ix = ks[0] if isinstance(ks[0], list) else ks[0].data
            ix = [self.index(i) for i in ix]
            if all(isinstance(i, int) and not isinstance(i, bool) for i in ix):
                parts = [b.get(i) for i in ix]
                if parts and isinstance(parts[0], Arr):
                    return Arr((len(parts),) + parts[0].shape, [x for p in parts for x in p.data])
                return Arr((len(parts),), parts)
        return b.get(k)

    def dot(self, a, b):
        a, b = self.lift(a), self.lift(b)
        if not isinstance(a, Arr) or not isinstance(b, Arr):
            return self.el(lambda x, y: self.op2("*", x, y), a, b)
        if a.ndim == 1 and b.ndim == 1:
            if a.shape != b.shape:
                raise Fault("product of shapes %s %s" % (a.shape, b.shape))
            return self.total([self.op2("*", x, y) for x, y in zip(a.data, b.data)])
        if a.ndim == 2 and b.ndim in (1, 2):
            if a.shape[1] != b.shape[0]:
                raise Fault("product of shapes %s %s" % (a.shape, b.shape))
            if b.ndim == 1:
                return Arr.of((a.shape[0],), lambda i: self.total(
                    [self.op2("*", a.at(i, k), b.at(k)) for k in range(a.shape[1])]))
            return Arr.of((a.shape[0], b.shape[1]), lambda i, j: self.total(
                [self.op2("*", a.at(i, k), b.at(k, j)) for k in range(a.shape[1])]))
        raise Unknown("dot")

    def total(self, xs, start=0):
        r = start
        for x in xs:
            r = self.el(lambda p, q: self.op2("+", p, q), r, x)
        return r

    def extreme(self, name, xs):
        xs = list(xs)
        if any(isnan(x) for x in xs):
            return NAN
        if not xs:
            raise Fault("%s of nothing" % name)
        out = []
        for x in xs:
            if not any(num(x).same(num(y)) for y in out):
                out.append(x)
        if len(out) == 1:
            return out[0]
        if all(num(x).const() is not None for x in out):
            return (min if name == "min" else max)(out, key=lambda x: num(x).const())
        out.sort(key=lambda x: repr(num(x)))
        return self.funs(name, *out)

    def along(self, v, axis, f):
        """reduction of an array along an axis"""
        v = self.lift(v)
        if not isinstance(v, Arr):
            return f([v])
        if axis is None:
            return f(v.data)
        if isinstance(axis, int):
            ax = axis % v.ndim
            rest = v.shape[:ax] + v.shape[ax + 1:]
            g = lambda *i: f([v.at(*(i[:ax] + (k,) + i[ax:])) for k in range(v.shape[ax])])
            return Arr.of(rest, g) if rest else g()
        raise Unknown("axis")

    def builtin(self, t, n):
        if n in ("sum", "min", "max", "abs", "float", "int", "round", "tuple", "list", "set", "divmod", "sorted", "len", "pow",
                 "any", "all", "map", "iter"):
            if n == "map":
                raise Unknown("map")
            if n == "sum":
                a, kw = self.args(t)
                xs = self.elems(a[0])
                return self.total(xs, a[1] if len(a) > 1 else kw.get("start", 0))
            a, kw = self.args(t)
            if kw:
                raise Unknown(n)
            if n in ("min", "max"):
                return self.extreme(n, self.elems(a[0]) if len(a) == 1 else a)
            if n == "pow":
                return self.el(lambda x, y: self.op2("**", x, y), a[0], a[1])
            if n in ("any", "all"):
                xs = self.elems(a[0])
                if not all(isinstance(x, bool) for x in xs):
                    raise Unknown(n)
                return any(xs) if n == "any" else all(xs)
            if n in ("tuple", "list"):
                if not a:
                    return () if n == "tuple" else []
                return (tuple if n == "tuple" else list)(self.elems(a[0]))
            if n == "iter":
                return list(self.elems(a[0]))
            if n == "len":
                return len(self.elems(a[0]))
            if n == "float":
                return a[0]
            x = a[0]
            if n == "abs":
                return self.el(lambda y: abs(y) if not isinstance(y, Rat) else self.fun("abs", y), x)
            if isinstance(x, Rat):
                if n in ("int", "round"):
                    e = self.funs.entry(list(x.atoms())[0]) if len(x.atoms()) == 1 else None
                    if n == "int" and e and e[0] in ("floor", "int", "round") and x.same(self.funs(e[0], *e[1])):
                        return x
                    return self.fun(n, x, *a[1:])
                raise Unknown(n)
        if n.startswith("math."):
            return self.npy(t, n[5:])
        if n.split(".")[0] in ("libc", "cython"):
            return self.npy(t, n.split(".")[-1])
        if n in ("itertools.chain", "chain"):
            return [x for a in self.args(t)[0] for x in self.elems(a)]
        return Eval.builtin(self, t, n)

    def elems(self, v):
        if isinstance(v, Arr):
            return [v.get(i) for i in range(v.shape[0])]
        if isinstance(v, (list, tuple, range)):
            return list(v)
        raise Unknown("elements of %r" % (v,))

    def seq(self, t):
        v = self.ev(canon(t))
        return self.elems(v)

    def npy(self, t, n):
        n = n.split(".")[-1]
        if n in ("array", "asarray", "asanyarray", "ascontiguousarray", "atleast_1d", "atleast_2d", "atleast_3d"):
            a, kw = self.args(t)
            v = self.lift(a[0])
            if not isinstance(v, Arr):
                v = Arr((), [v])
            if n == "atleast_3d":
                v = Arr({0: (1, 1, 1), 1: (1,) + v.shape + (1,), 2: v.shape + (1,)}.get(v.ndim, v.shape), v.data)
            if n == "atleast_2d":
                v = Arr({0: (1, 1), 1: (1,) + v.shape}.get(v.ndim, v.shape), v.data)
            if n == "atleast_1d" and v.ndim == 0:
                v = Arr((1,), v.data)
            return v
        if n in UF:
            a, kw = self.args(t)
            if kw:
                raise Unknown("numpy." + n)
            return self.el(lambda *x: self.fun(UF[n], *x), *[self.lift(x) for x in a])
        if n in ("radians", "deg2rad", "degrees", "rad2deg"):
            a, kw = self.args(t)
            f = (PI / rconst(180)) if n in ("radians", "deg2rad") else rconst(180) / PI
            return self.el(lambda x: self.op2("*", x, f), self.lift(a[0]))
        if n in ("add", "subtract", "multiply", "divide", "true_divide", "power"):
            a, kw = self.args(t)
            o = {"add": "+", "subtract": "-", "multiply": "*", "power": "**"}.get(n, "/")
            return self.el(lambda x, y: self.op2(o, x, y), self.lift(a[0]), self.lift(a[1]))
        if n in ("square",):
            a, kw = self.args(t)
            return self.el(lambda x: self.op2("*", x, x), self.lift(a[0]))
        if n == "negative":
            a, kw = self.args(t)
            return self.el(lambda x: -x, self.lift(a[0]))
        if n in ("dot", "matmul"):
            a, kw = self.args(t)
            return self.dot(a[0], a[1])
        if n in ("sum", "min", "max", "amin", "amax", "mean", "nansum", "nanmin", "nanmax", "prod"):
            a, kw = self.args(t)
            ax = kw.pop("axis", a[1] if len(a) > 1 else None)
            if kw:
                raise Unknown("numpy." + n)
            return self.reduce(n, a[0], ax)
        if n in ("zeros_like", "ones_like", "full_like", "empty_like"):
            a, kw = self.args(t)
            v = self.lift(a[0])
            if n == "full_like":
                f = kw.get("fill_value", a[1] if len(a) > 1 else None)
                return spread(f, v.shape)
            return Arr(v.shape, [{"zeros_like": 0, "ones_like": 1}.get(n, EMPTY)] * len(v.data))
        if n in ("eye", "identity"):
            a, kw = self.args(t)
            k = self.index(a[0])
            return Arr.of((k, k), lambda i, j: 1 if i == j else 0)
        if n == "arange":
            a, kw = self.args(t)
            r = list(range(*[self.index(x) for x in a]))
            return Arr((len(r),), r)
        if n in ("hstack", "column_stack", "dstack", "vstack", "row_stack", "concatenate", "stack"):
            a, kw = self.args(t)
            xs = [self.lift(x) for x in a[0]]
            xs = [x if isinstance(x, Arr) else Arr((), [x]) for x in xs]
            if n == "stack":
                if kw.get("axis", a[1] if len(a) > 1 else 0) != 0:
                    raise Unknown("stack")
                return self.lift(xs)
            if n in ("vstack", "row_stack"):
                xs, ax = [x if x.ndim > 1 else Arr((1,) + (x.shape or (1,)), x.data) for x in xs], 0
            elif n == "hstack":
                ax = 0 if xs[0].ndim == 1 else 1
            elif n == "column_stack":
                xs, ax = [x if x.ndim > 1 else Arr(x.shape + (1,), x.data) for x in xs], 1
            elif n == "dstack":
                xs, ax = [x if x.ndim > 2 else Arr((x.shape if x.ndim == 2 else (1,) + x.shape) + (1,), x.data) for x in xs], 2
            else:
                ax = kw.get("axis", a[1] if len(a) > 1 else 0)
            return self.join(xs, ax)
        if n == "tile":
            a, kw = self.args(t)
            v, reps = self.lift(a[0]), a[1]
            reps = tuple(self.index(x) for x in (reps if isinstance(reps, (tuple, list)) else (reps,)))
            nd = max(v.ndim, len(reps))
            sh = (1,) * (nd - v.ndim) + v.shape
            reps = (1,) * (nd - len(reps)) + reps
            v = Arr(sh, v.data)
            return Arr.of(tuple(s * r for s, r in zip(sh, reps)), lambda *i: v.at(*[x % s for x, s in zip(i, sh)]))
        if n == "cross":
            a, kw = self.args(t)
            u, v = self.lift(a[0]), self.lift(a[1])
            ua, va = [kw.get(k, kw.get("axis", -1)) for k in ("axisa", "axisb")]
            ua, va = ua % u.ndim, va % v.ndim
            if u.shape[ua] != 3 or v.shape[va] != 3 or kw.get("axisc", -1) != -1:
                raise Unknown("cross")
            rest = u.shape[:ua] + u.shape[ua + 1:]
            def g(*i):
                c, k = i[-1], i[:-1]
                U = [u.at(*(k[:ua] + (m,) + k[ua:])) for m in range(3)]
                V = [v.at(*(k[:va] + (m,) + k[va:])) for m in range(3)]
                p, q = (c + 1) % 3, (c + 2) % 3
                return self.op2("-", self.op2("*", U[p], V[q]), self.op2("*", U[q], V[p]))
            return Arr.of(rest + (3,), g)
        if n == "pad":
            return self.pad(t)
        if n == "where":
            a, kw = self.args(t)
            if len(a) == 3:
                return self.el(lambda c, x, y: (x if c else y) if isinstance(c, bool) else self.bad("where"),
                               *[self.lift(x) for x in a])
        if n == "isnan":
            a, kw = self.args(t)
            return self.el(isnan, self.lift(a[0]))
        if n in ("isfinite",):
            a, kw = self.args(t)
            return self.el(lambda x: not isnan(x), self.lift(a[0]))
        if n == "diff":
            a, kw = self.args(t)
            v = self.lift(a[0])
            ax = kw.get("axis", -1) % v.ndim
            if len(a) > 1:
                raise Unknown("diff")
            key = lambda s: tuple(s if k == ax else slice(None) for k in range(v.ndim))
            return self.el(lambda x, y: self.op2("-", x, y), v.get(key(slice(1, None))), v.get(key(slice(None, -1))))
        if n == "roll":
            a, kw = self.args(t)
            v = self.lift(a[0])
            k = self.index(kw.get("shift", a[1] if len(a) > 1 else None))
            ax = kw.get("axis", a[2] if len(a) > 2 else None)
            if ax is None and v.ndim != 1:
                raise Unknown("roll")
            ax = (ax or 0) % v.ndim
            return Arr.of(v.shape, lambda *i: v.at(*[(x - k) % v.shape[ax] if d == ax else x for d, x in enumerate(i)]))
        if n in ("append",):
            a, kw = self.args(t)
            x, y = self.lift(a[0]), self.lift(a[1])
            ax = kw.get("axis", a[2] if len(a) > 2 else None)
            y = y if isinstance(y, Arr) else Arr((1,), [y])
            if ax is None:
                x, y, ax = x.reshape((-1,)), y.reshape((-1,)), 0
            return self.join([x, y], ax)
        if n == "squeeze":
            a, kw = self.args(t)
            v = self.lift(a[0])
            return v.reshape([k for k in v.shape if k != 1])
        if n in ("float64", "float32", "double"):
            return self.args(t)[0][0]
        if n == "fmin" or n == "fmax":
            a, kw = self.args(t)
            return self.el(lambda *x: self.extreme(n[1:], x), *a)
        return Eval.npy(self, t, n)

    def join(self, xs, ax):
        ax = ax % xs[0].ndim
        for x in xs:
            if x.ndim != xs[0].ndim or any(p != q for k, (p, q) in enumerate(zip(x.shape, xs[0].shape)) if k != ax):
                raise Fault("arrays of shapes %s joined" % ([x.shape for x in xs],))
        shape = tuple(sum(x.shape[ax] for x in xs) if k == ax else s for k, s in enumerate(xs[0].shape))
        def g(*i):
            k = i[ax]
            for x in xs:
                if k < x.shape[ax]:
                    return x.at(*(i[:ax] + (k,) + i[ax + 1:]))
                k -= x.shape[ax]
        return Arr.of(shape, g)

    def reduce(self, n, v, ax):
        if n in ("nansum", "nanmin", "nanmax"):
            v = self.lift(v)
            if any(isnan(x) for x in v.data):
                raise Unknown(n)
            n = n[3:]
        if n == "sum":
            return self.along(v, ax, lambda xs: self.total(xs))
        if n == "mean":
            return self.along(v, ax, lambda xs: self.op2("/", self.total(xs), len(xs)))
        if n == "prod":
            def g(xs):
                r = 1
                for x in xs:
                    r = self.op2("*", r, x)
                return r
            return self.along(v, ax, g)
        return self.along(v, ax, lambda xs: self.extreme({"amin": "min", "amax": "max"}.get(n, n), xs))

    def pad(self, t):
        a, kw = self.args(t)
        v = self.lift(a[0])
        w = a[1] if len(a) > 1 else kw.get("pad_width")
        mode = a[2] if len(a) > 2 else kw.get("mode", "constant")
        if isinstance(w, int):
            w = ((w, w),) * v.ndim
        elif isinstance(w, (tuple, list)) and all(isinstance(x, int) for x in w):
            w = (tuple(w) if len(w) == 2 else (w[0], w[0]),) * v.ndim
        elif len(w) == 1:
            w = tuple(w) * v.ndim
        if len(w) != v.ndim:
            raise Fault("padding of %d axes for %d" % (len(w), v.ndim))
        shape = tuple(s + p + q for s, (p, q) in zip(v.shape, w))
        if mode == "constant":
            c = kw.get("constant_values", 0)
            while isinstance(c, (tuple, list)) and len(c) == 1:
                c = c[0]
            if isinstance(c, (tuple, list)):
                raise Unknown("pad")
        else:
            c = PADDED
        def g(*i):
            j = tuple(x - p for x, (p, q) in zip(i, w))
            return v.at(*j) if all(0 <= x < s for x, s in zip(j, v.shape)) else c
        return Arr.of(shape, g)

    def method(self, t):
        n = t.args[1]
        v = self.ev(t.args[0])
        if isinstance(v, Arr):
            if n in ("sum", "min", "max", "mean", "prod"):
                a, kw = self.args(t)
                return self.reduce(n, v, kw.get("axis", a[0] if a else None))
            if n == "dot":
                return self.dot(v, self.args(t)[0][0])
            if n == "tolist":
                return self.unlift(v)
            if n in ("transpose", "swapaxes"):
                a, kw = self.args(t)
                a = tuple(a[0]) if len(a) == 1 and isinstance(a[0], (tuple, list)) else tuple(a)
                if n == "transpose" and a:
                    return Arr.of(tuple(v.shape[k] for k in a),
                                  lambda *i: v.at(*[i[a.index(k)] for k in range(v.ndim)]))
        if isinstance(v, Rat) and n in ("astype", "item", "copy"):
            return v
        if isinstance(v, list) and n == "index":
            raise Unknown("index")
        return Eval.method(self, t)

    def unlift(self, v):
        return [self.unlift(x) if isinstance(x, Arr) else x for x in self.elems(v)]


PADDED = Label(("padding",))


def abs_inf(x):
    return isinstance(x, float) and abs(x) == float("inf")


# ---------------------------------------------------------------- disproving an identity

POINTS = (0.73, 0.31, 1.17, 0.89, 0.57, 1.41, 0.23, 0.67, 1.93, 0.47, 1.07, 0.83, 0.37, 1.61, 0.53, 0.97)


def value(funs, r, env, k):
    """the number that a normal form denotes at an instance of its atoms"""
    if not isinstance(r, Rat):
        return float(r)
    def atom(key):
        if key in env:
            return env[key]
        if key == "pi":
            v = math.pi
        else:
            e = funs.entry(key)
            if e is None:
                v = POINTS[(len(env) * 5 + k * 3) % len(POINTS)] + 0.01 * len(env)
                if k >= 3 and key in funs.signed and (len(env) + k) % 2:
                    v = -v
            elif e[0] in MATHF or e[0] in funs.extra:
                v = (MATHF.get(e[0]) or funs.extra[e[0]])(*[value(funs, a, env, k) for a in e[1]])
            else:
                raise Unknown("value of " + e[0])
        env[key] = v
        return v
    def poly(p):
        s = 0.0
        for m, c in p.items():
            x = float(c)
            for key, e in m:
                x *= atom(key) ** e
            s += x
        return s
    return poly(r.n) / poly(r.d)


def equal(funs, a, b, tries=3):
    """True: the same function by normal form; False: different at some instance; None: not decided"""
    a, b = num(a), num(b)
    if a.same(b):
        return True
    seen = 0
    for k in range(tries + 2 if funs.signed else tries):
        env = dict(funs.instances[k % len(funs.instances)]) if funs.instances else {}
        for key in sorted({x for x in a.atoms() | b.atoms() if isinstance(x, str)}):
            if funs.entry(key) is None and key != "pi":
                try:
                    value(funs, ratom(key), env, k)
                except Unknown:
                    return None
        try:
            x, y = value(funs, a, env, k), value(funs, b, env, k)
        except (ValueError, ZeroDivisionError, OverflowError, Unknown):
            continue
        if x != x or y != y:
            continue
        seen += 1
        if abs(x - y) > 1e-9 * max(1.0, abs(x), abs(y)):
            return False
    return None
