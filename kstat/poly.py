"""Rational-function normal forms of numeric value terms: two terms that denote the same rational function of their
atoms get equal normal forms, however they are written."""
from fractions import Fraction
from .terms import T, mk, is_const, cval, const

ZERO = {}
CASTS = ("float", "numpy.float64", "numpy.asarray", "numpy.array", "numpy.double", "numpy.float32")


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    d = dict(m)
    for k, e in n:
        d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e))


def pmul(a, b):
    if len(a) * len(b) > 4000:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


class TooBig(Exception):
    pass


def pconst(c):
    c = Fraction(c)
    return {(): c} if c else {}


class Rat(object):
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n = n
        self.d = {(): Fraction(1)} if d is None else d
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if m == () and c != 1:
                self.n = {k: v / c for k, v in self.n.items()}
                self.d = {(): Fraction(1)}

    def __add__(self, o):
        if self.d == o.d:
            return Rat(padd(self.n, o.n), self.d)
        return Rat(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))

    def __neg__(self):
        return Rat({k: -v for k, v in self.n.items()}, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return Rat(pmul(self.n, o.n), pmul(self.d, o.d))

    def __truediv__(self, o):
        return Rat(pmul(self.n, o.d), pmul(self.d, o.n))

    def same(self, o):
        return not padd(pmul(self.n, o.d), pmul(o.n, self.d), -1)

    def zero(self):
        return not self.n

    def const(self):
        """value if the function is a constant, else None"""
        if self.d == {(): 1} and all(m == () for m in self.n):
            return self.n.get((), Fraction(0))
        return None

    def atoms(self):
        return {k for p in (self.n, self.d) for m in p for k, _ in m}

    def subst(self, f):
        """replace atoms: f(atom key) -> Rat or None"""
        def go(p):
            r = Rat({})
            for m, c in p.items():
                t = Rat(pconst(c))
                for k, e in m:
                    x = f(k)
                    x = Rat({((k, 1),): Fraction(1)}) if x is None else x
                    for _ in range(e):
                        t = t * x
                r = r + t
            return r
        return go(self.n) / go(self.d)

    def __repr__(self):
        def s(p):
            return " + ".join("%s%s" % ("" if c == 1 and m else str(c), "*".join(
                "%s%s" % (k, "" if e == 1 else "^%d" % e) for k, e in m)) for m, c in sorted(p.items(), key=repr)) or "0"
        return s(self.n) if self.d == {(): 1} else "(%s)/(%s)" % (s(self.n), s(self.d))


def rconst(c):
    return Rat(pconst(c))


def ratom(k):
    return Rat({((k, 1),): Fraction(1)})


class Norm(object):
    """Normal forms of terms.  `atom(term)` may map a term to a Rat or to a canonical atom key."""
    def __init__(self, atom=None, integer_division=False):
        self.atom = atom
        self.memo = {}
        self.keys = {}

    def key(self, t):
        k = "a%d" % len(self.keys)
        return self.keys.setdefault(t, k)

    def __call__(self, t):
        if t in self.memo:
            return self.memo[t]
        try:
            r = self.go(t)
        except (TooBig, ZeroDivisionError, RecursionError):
            r = ratom(self.key(t))
        self.memo[t] = r
        return r

    def go(self, t):
        if self.atom is not None:
            r = self.atom(t)
            if isinstance(r, Rat):
                return r
            if isinstance(r, T) and r is not t:
                return self(r)
            if isinstance(r, str):
                return ratom(r)
        if is_const(t):
            v = cval(t)
            if isinstance(v, bool):
                return rconst(int(v))
            if isinstance(v, (int, float)) and v == v and abs(v) != float("inf"):
                return rconst(Fraction(v))
            return ratom(self.key(t))
        if t.op == "bin":
            o, a, b = t.args
            if o in ("+", "-", "*", "/"):
                x, y = self(a), self(b)
                if o == "+":
                    return x + y
                if o == "-":
                    return x - y
                if o == "*":
                    return x * y
                if y.zero():
                    return ratom(self.key(t))
                return x / y
            if o == "**" and is_const(b) and isinstance(cval(b), int) and 0 <= cval(b) <= 8:
                r = rconst(1)
                for _ in range(cval(b)):
                    r = r * self(a)
                return r
        if t.op == "un" and t.args[0] == "-":
            return -self(t.args[1])
        if t.op == "un" and t.args[0] == "+":
            return self(t.args[1])
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in CASTS and t.args[1]:
            return self(t.args[1][0][1])
        if t.op == "item" and t.args[0].op in ("tuple", "list") and is_const(t.args[1]) and \
                isinstance(cval(t.args[1]), int) and not any(x.op in ("each", "star") for x in t.args[0].args) and \
                -len(t.args[0].args) <= cval(t.args[1]) < len(t.args[0].args):
            return self(t.args[0].args[cval(t.args[1])])
        return ratom(self.key(t))
