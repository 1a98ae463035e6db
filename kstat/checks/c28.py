"""C28: derived surfaces are derivatives of the grid in coordinate units."""
from ..finite import Arr, Fault, Unknown, Label
from ..interp import Interp, Overflow
from ..iospec import cargs, extname
from ..loader import Program
from ..poly import Rat, ratom, rconst
from ..report import Report
from ..results import ResultPolicy
from ..symev import SymEval, Funs, PI, PADDED, equal, isnan, isnum, num
from ..terms import T, mk, const, is_const, cval, fmt, arg

TECHNIQUE = "path-wise value terms of the derived surfaces resolved to rational normal forms on a symbolic quadratic surface"
RULE = ("The cells of a 5 by 6 grid of two bands hold symbolic quadratic surfaces of the cell coordinates (cell sizes are symbols "
        "of either sign). Each derived surface is resolved, cell by cell, to the normal form of its value: at every interior "
        "cell the gradient is the pair of partial derivatives, slope their length, aspect atan2(dz/dy, -dz/dx), divergence the "
        "sum of the derivatives of the two bands along x and y, the normed vectors the gradient over one common factor, and "
        "hillshade the cosine between surface normal and light. Results have the shape of the grid and its transform.")
MOD = "karta.raster.misc"
M, N, NB = 5, 6, 2


class P28(ResultPolicy):
    max_depth = 6
    no_inline = ()

    def inline(self, interp, f, recv, depth):
        return f.module.name == MOD


class Surface(object):
    def __init__(self):
        self.funs = Funs()
        self.funs.signed = {"rx", "ry"} | {"c%d%d" % (b, k) for b in range(NB) for k in range(6)}
        self.rx, self.ry = ratom("rx"), ratom("ry")
        self.ox, self.oy = ratom("ox"), ratom("oy")
        self.az, self.el = ratom("azimuth"), ratom("elevation")

    def coef(self, b, k):
        return ratom("c%d%d" % (b, k))

    def xy(self, i, j):
        return num(j) * self.rx, num(i) * self.ry

    def z(self, i, j, b):
        x, y = self.xy(i, j)
        c = lambda k: self.coef(b, k)
        return c(0) + c(1) * x + c(2) * y + c(3) * x * x + c(4) * x * y + c(5) * y * y

    def dx(self, i, j, b):
        x, y = self.xy(i, j)
        return self.coef(b, 1) + num(2) * self.coef(b, 3) * x + self.coef(b, 4) * y

    def dy(self, i, j, b):
        x, y = self.xy(i, j)
        return self.coef(b, 2) + self.coef(b, 4) * x + num(2) * self.coef(b, 5) * y

    def grid(self):
        return Arr.of((M, N, NB), self.z)

    def call(self, ev, t):
        g = mk("param", "grid")
        if t is g:
            return t
        if t.op == "attr" and t.args[0].op == "param" and t.args[0].args[0] == "grid":
            n = t.args[1]
            if n == "resolution":
                return (self.rx, self.ry)
            if n == "skew":
                return (0, 0)
            if n in ("transform", "_transform"):
                return (self.ox, self.oy, self.rx, self.ry, 0, 0)
            if n == "data_mask":
                return Arr.of((M, N), lambda i, j: True)
            if n == "data_mask_full":
                return Arr.of((M, N, NB), lambda *i: True)
            if n == "size":
                return (M, N)
            if n == "nbands":
                return NB
            raise Unknown("grid." + n)
        if t.op == "item":
            b = t.args[0]
            if b.op == "param" and b.args[0] == "grid":
                return ev.fancy(self.grid(), ev.index(ev.ev(t.args[1])))
            if isgrid(b):
                v = values_of(ev, b)
                return ev.fancy(v, ev.index(ev.ev(t.args[1])))
        raise NotImplementedError


def isgrid(t):
    return isinstance(t, T) and t.op == "new" and str(t.args[0]).split(".")[-1] == "RegularGrid"


def values_of(ev, t):
    vt = arg(t, "values", 1)
    if vt is None:
        raise Unknown("grid without values")
    v = ev.lift(ev.ev(vt))
    if not isinstance(v, Arr):
        raise Unknown("values of a grid")
    if v.ndim == 2:
        v = Arr(v.shape + (1,), v.data)
    return v


def same(s, a, b):
    if isnan(a) or isinstance(a, Label) or not isnum(a):
        return None if isinstance(a, Label) and a is not PADDED else False
    return equal(s.funs, a, b)


def surface(rep, s, p, name, bands, spec, count=1):
    """spec(ev, i, j, k) -> expected normal form of result k at an interior cell"""
    m = p.modules.get(MOD)
    f = m.funcs.get(name) if m is not None else None
    if f is None:
        rep.undec("%s not found" % name)
        return
    rep.fn(f.qual)
    it = Interp(p, P28())
    try:
        paths = it.run(f)
    except (Overflow, RecursionError, Exception) as e:
        rep.undec("%s: %s" % (name, type(e).__name__))
        return
    for q in paths:
        if q.kind != "return" or q.value is None:
            continue
        ev = SymEval(bands(s), s.call, s.funs)
        v = it.reify(q.value, q.state)
        try:
            if not ev.holds(q.conds):
                continue
        except (Unknown, Fault) as e:
            pass
        outs = v.args if isinstance(v, T) and v.op in ("tuple", "list") else (v,)
        if len(outs) != count:
            rep.bad("shape", name, "%s returns %d results, expected %d" % (name, len(outs), count), q.where)
            continue
        for k, g in enumerate(outs):
            what = name if count == 1 else "%s, result %d" % (name, k)
            if not isgrid(g):
                rep.undec("%s: result is not a new grid" % what)
                continue
            try:
                A = values_of(ev, g)
            except Fault as e:
                rep.bad("formula", what, "%s cannot be computed: %s" % (what, e), q.where)
                continue
            except (Unknown, NotImplementedError, Exception) as e:
                rep.undec("%s: %s" % (what, str(e)[:100]))
                continue
            if A.shape != (M, N, 1):
                rep.bad("shape", what, "the result has the shape %s for a grid of %s cells" % (A.shape, (M, N)), q.where)
                continue
            try:
                tr = ev.ev(arg(g, "transform", 0))
                want = (s.ox, s.oy, s.rx, s.ry, num(0), num(0))
                if isinstance(tr, (tuple, list)) and len(tr) == 6:
                    if any(equal(s.funs, a, b) is False for a, b in zip(tr, want)):
                        rep.bad("transform", what, "the result lies elsewhere than the grid", q.where)
                    else:
                        rep.ok("%s: placed like the grid" % what, q.where)
            except (Unknown, Fault, Exception):
                rep.undec("%s: transform" % what)
            wrong = None
            undecided = 0
            n = 0
            for i in range(1, M - 1):
                for j in range(1, N - 1):
                    try:
                        r = spec(ev, A, i, j, k)
                    except (Unknown, Fault) as e:
                        r = None
                    n += 1
                    if r is None:
                        undecided += 1
                    elif r is False and wrong is None:
                        wrong = (i, j)
            if wrong:
                rep.bad("formula", what, "on a quadratic surface the value at row %d, column %d is not the expected derivative"
                        % wrong, q.where)
            elif undecided:
                rep.undec("%s: %d of %d cells" % (what, undecided, n))
            else:
                rep.ok("%s: %d interior cells exact on quadratic surfaces" % (what, n), q.where)


def check():
    rep = Report("C28", RULE)
    rep.minimum = 2
    p = Program()
    B = 1
    one = lambda s: {mk("param", "band"): B, mk("param", "azimuth"): s.az, mk("param", "elevation"): s.el}
    two = lambda s: {mk("param", "bands"): (1, 0)}

    s = Surface()
    surface(rep, s, p, "gradient", one,
            lambda ev, A, i, j, k: same(s, A.at(i, j, 0), s.dx(i, j, B) if k == 0 else s.dy(i, j, B)), 2)
    s1 = Surface()
    surface(rep, s1, p, "slope", one, lambda ev, A, i, j, k: same(s1, A.at(i, j, 0), ev.fun(
        "sqrt", s1.dx(i, j, B) * s1.dx(i, j, B) + s1.dy(i, j, B) * s1.dy(i, j, B))))
    s2 = Surface()
    surface(rep, s2, p, "aspect", one, lambda ev, A, i, j, k: same(s2, A.at(i, j, 0), ev.fun(
        "atan2", s2.dy(i, j, B), -s2.dx(i, j, B))))
    s3 = Surface()
    surface(rep, s3, p, "divergence", two,
            lambda ev, A, i, j, k: same(s3, A.at(i, j, 0), s3.dx(i, j, 1) + s3.dy(i, j, 0)))
    s4 = Surface()
    # one common factor for both results and all cells
    def normed(ev, A, i, j, k):
        d = s4.dx if k == 0 else s4.dy
        v = A.at(i, j, 0)
        if not isnum(v) or isnan(v):
            return False
        r = equal(s4.funs, num(v) * d(1, 1, B), num(A.at(1, 1, 0)) * d(i, j, B))
        if r is not True:
            return r
        factor = num(A.at(1, 1, 0)) / d(1, 1, B)
        if k == 0:
            s4.factor = factor
        return equal(s4.funs, factor, s4.factor)
    surface(rep, s4, p, "normed_potential_vectors", one, normed, 2)
    s5 = Surface()
    def shade(ev, A, i, j, k):
        gx, gy = s5.dx(i, j, B), s5.dy(i, j, B)
        rad = PI / num(180)
        L = (ev.fun("cos", s5.az * rad), ev.fun("sin", s5.az * rad), ev.fun("sin", s5.el * rad))
        n = (-gx, -gy, num(1))
        norm = ev.fun("sqrt", n[0] * n[0] + n[1] * n[1] + n[2] * n[2])
        return same(s5, A.at(i, j, 0), (n[0] * L[0] + n[1] * L[1] + n[2] * L[2]) / norm)
    surface(rep, s5, p, "hillshade", one, shade)
    return rep
