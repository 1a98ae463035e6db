"""C27: the boundary of a polygon is its closed ring."""
from fractions import Fraction

from ..finite import Arr, Fault, Unknown, Label, canon, loopy
from ..interp import Interp, Overflow
from ..iospec import cargs, extname
from ..loader import Program
from ..poly import Rat, ratom, rconst
from ..report import Report
from ..results import ResultPolicy
from ..symev import SymEval, Funs, equal, isnum, num
from ..terms import T, mk, const, is_const, cval, fmt, arg, walk, contains

TECHNIQUE = "edge enumeration of boundary loops on path-wise value terms; rational normal forms of ring measures"
RULE = ("Rings of 3, 4 and 5 symbolic vertices stand for the polygon. Every operation over a polygon's boundary (segments, winding, "
        "perimeter, area, centroid, closed rings, nearest positions, distance and dateline tests, intersections) is resolved "
        "on them: the edges it visits must be the n edges of the ring, the closing edge included, each as often as the others; "
        "the planar area, centroid and winding must be the shoelace expressions as rational functions; coordinates handed to "
        "the Cython kernels must still be marked as a ring, and the kernels must visit n edges of a ring and n-1 of a line.")
GEOM = "karta.vector.geometry"
SIZES = (3, 4, 5)


class P27(ResultPolicy):
    max_depth = 6
    no_inline = ("__init__", "_as_nested_lists", "_as_nested_tuples", "_flatten", "vertex", "_reproject")

    def inline(self, interp, f, recv, depth):
        return f.module.name == GEOM and f.name not in self.no_inline


class CS(object):
    """coordinates of a ring or an open line"""
    def __init__(self, verts, ring):
        self.verts = verts
        self.ring = ring


class Geo(object):
    def __init__(self, kind, cs, subs=()):
        self.kind = kind
        self.cs = cs
        self.subs = list(subs)


class Sub(object):
    pass


class Opaque(object):
    def __init__(self, name):
        self.name = name


def extends(t, name):
    return isinstance(t, T) and t.op in ("call", "new") and str(t.args[0] if t.op == "new" else
                                                                 (t.args[0].args[-1] if t.args[0].args else "")).split(".")[-1] == name


class Model(object):
    def __init__(self, n, geographic, selft, rank=2):
        self.n = n
        self.geo = geographic
        self.funs = Funs()
        self.X = [ratom("x%d" % i) for i in range(n)]
        self.Y = [ratom("y%d" % i) for i in range(n)]
        self.V = [(self.X[i], self.Y[i]) for i in range(n)]
        self.poly = Geo("Polygon", CS(self.V, True), [Sub()])
        self.other = Geo("Polygon", CS([(ratom("u%d" % i), ratom("v%d" % i)) for i in range(3)], True))
        self.point = Geo("Point", CS([(ratom("px"), ratom("py"))], False))
        self.crs = Opaque("crs")
        self.selft = selft
        self.env = {selft: self.poly, mk("param", "point"): self.point, mk("param", "pt"): self.point,
                    mk("param", "other"): self.other, mk("param", "crs"): self.crs, mk("param", "self"): self.poly}
        self.kernels = []

    # -- resolution of the package's own objects
    def call(self, ev, t):
        if t.op == "attr":
            n = t.args[1]
            b = self.obj(ev, t.args[0])
            if isinstance(b, Geo):
                if n == "_vertices":
                    return b.cs
                if n == "crs":
                    return self.crs
                if n == "subs":
                    return b.subs
                if n in ("x", "y") and b.kind == "Point":
                    return b.cs.verts[0][0 if n == "x" else 1]
                if n == "_vertex" and b.kind == "Point":
                    return b.cs.verts[0]
                if n == "length" and len(b.cs.verts) == 2:
                    return self.seglen(b)
                if n in ("_geotype",):
                    return b.kind
                raise Unknown("attribute " + n)
            if isinstance(b, Sub):
                if n in ("area", "perimeter"):
                    return ratom("sub_" + n)
                raise Unknown(n)
            if isinstance(b, CS) and n in ("ring", "rank"):
                return b.ring if n == "ring" else 2
            if isinstance(b, Opaque):
                return Opaque(b.name + "." + n)
            raise NotImplementedError
        if t.op == "isinstance":
            b = self.obj(ev, t.args[0])
            if b is self.crs:
                g = fmt(t.args[1])
                if "Geographical" in g:
                    return self.geo
                if "Cartesian" in g or "Projected" in g:
                    return not self.geo
            raise NotImplementedError
        if t.op == "len":
            b = self.obj(ev, t.args[0])
            if isinstance(b, Geo):
                return len(b.cs.verts)
            if isinstance(b, CS):
                return len(b.verts)
            raise NotImplementedError
        if t.op == "item":
            b = self.obj(ev, t.args[0])
            cs = b.cs if isinstance(b, Geo) else b
            if isinstance(cs, CS):
                k = ev.index(ev.ev(t.args[1]))
                if not isinstance(k, int) or isinstance(k, bool):
                    raise Unknown("slice")
                if not -len(cs.verts) <= k < len(cs.verts):
                    raise Fault("vertex %d of %d" % (k, len(cs.verts)))
                v = cs.verts[k]
                return Geo("Point", CS([v], False)) if isinstance(b, Geo) else v
            raise NotImplementedError
        if t.op == "mcall":
            b = self.obj(ev, t.args[0])
            n = t.args[1]
            if isinstance(b, CS):
                a, kw = ev.args(t)
                if n == "asarray":
                    return Arr.of((len(b.verts), 2), lambda i, j: b.verts[i][j])
                if n == "vectors":
                    return tuple(Arr((len(b.verts),), [v[k] for v in b.verts]) for k in (0, 1))
                if n == "slice":
                    a = [ev.index(x) for x in a]
                    lo, hi, st = a[0], a[1] if len(a) > 1 else len(b.verts), a[2] if len(a) > 2 else 1
                    m = len(b.verts)
                    lo = lo + m if lo < 0 else lo
                    hi = hi + m if hi <= 0 else hi
                    return CS(b.verts[lo:hi:st], False)
                if n in ("getX", "getY"):
                    i = ev.index(a[0])
                    m = len(b.verts)
                    if not (-m <= i < m or (b.ring and 0 <= i < 2 * m)):
                        raise Fault("vertex %d of %d" % (i, m))
                    return b.verts[i % m][0 if n == "getX" else 1]
                raise Unknown(n)
            if isinstance(b, Geo):
                if n in ("vertex", "get_vertex") and b.kind == "Point":
                    return b.cs.verts[0]
                if n in ("vertices", "get_vertices"):
                    return Arr.of((len(b.cs.verts), 2), lambda i, j: b.cs.verts[i][j])
                if n in ("shortest_distance_to", "displacement") and len(b.cs.verts) == 2:
                    return self.funs(n, *self.ends(b))
                if n == "coords":
                    return tuple(Arr((len(b.cs.verts),), [v[k] for v in b.cs.verts]) for k in (0, 1))
                if n == "distance" and b.kind == "Point":
                    o = ev.args(t)[0][0]
                    if isinstance(o, Geo) and o.kind == "Point":
                        return self.funs("dist", *sorted(b.cs.verts[0] + o.cs.verts[0], key=repr))
                if n == "_vertices_in":
                    return b.cs
                if n == "_segment_tuples_in":
                    vs, r = b.cs.verts, b.cs.ring
                    return [(vs[i - 1], vs[i]) for i in range(0 if r else 1, len(vs))]
                raise Unknown(n)
            if isinstance(b, Opaque):
                if n == "inverse":
                    a, kw = ev.args(t)
                    return tuple(self.funs("inverse%d" % k, *a) for k in range(3))
                if n in ("transform", "project"):
                    a, kw = ev.args(t)
                    xs = [x for x in a if isinstance(x, Arr)]
                    if len(xs) == 2:
                        return tuple(Arr(x.shape, [self.funs("proj%d" % k, y) for y in x.data]) for k, x in enumerate(xs))
                raise Unknown(n)
            raise NotImplementedError
        if t.op == "new":
            name = str(t.args[0]).split(".")[-1]
            if name in ("Line", "Polygon"):
                vt = arg(t, "vertices", 0)
                cs = self.coords(ev, vt)
                return Geo(name, CS(cs.verts, name == "Polygon"))
            if name == "CoordString":
                return self.coordstring(ev, t)
            if name == "Point":
                v = ev.ev(arg(t, "coords", 0))
                return Geo("Point", CS([tuple(ev.elems(v))[:2]], False))
            raise NotImplementedError
        if t.op == "call":
            n = extname(t)
            if n is not None:
                if n.split(".")[-1] == "CoordString":
                    return self.coordstring(ev, t)
                raise NotImplementedError
            fn = t.args[0]
            name = str(fn.args[0]).split(".")[-1] if fn.args and isinstance(fn.args[0], str) else \
                str(fn.args[0]).split(".")[-1]
            if name == "_reproject":
                a, kw = ev.args(t)
                xy = kw.get("xy", a[0] if a else None)
                return tuple(Arr(x.shape, [self.funs("proj%d" % k, y) for y in x.data]) for k, x in enumerate(xy[:2]))
            a, kw = ev.args(t)
            vals = list(a) + [kw[k] for k in sorted(kw)]
            css = [v for v in vals if isinstance(v, CS)]
            if css:
                self.kernels.append((name, css))
                return Opaque(name)
            flat = []
            for v in vals:
                if isinstance(v, Geo):
                    flat.extend(v.cs.verts[0])
                elif isinstance(v, (tuple, list)):
                    flat.extend(x for x in v)
                elif isinstance(v, Arr):
                    flat.extend(v.data)
                elif isinstance(v, Opaque) or v is None:
                    continue
                else:
                    flat.append(v)
            return self.funs(name, *[x for x in flat if isnum(x)])
        raise NotImplementedError

    def obj(self, ev, t):
        """the value of a term if it is one of the model's objects"""
        if isinstance(t, T) and (t in ev.env or t in ev.lvs or t.op in
                                 ("attr", "new", "elem", "item", "call", "mcall", "lv", "fold", "phi")):
            try:
                return ev.ev(t)
            except Unknown:
                return None
        return None

    def coords(self, ev, t):
        v = ev.ev(t)
        if isinstance(v, CS):
            return v
        out = []
        for x in ev.elems(v):
            if isinstance(x, Geo):
                x = x.cs.verts[0]
            x = ev.elems(x) if not isinstance(x, tuple) else list(x)
            if len(x) < 2 or not all(isnum(y) for y in x[:2]):
                raise Unknown("vertex")
            out.append((num(x[0]), num(x[1])))
        return CS(out, False)

    def coordstring(self, ev, t):
        cs = self.coords(ev, cargs(t)[0] if t.op == "call" else arg(t, "vertices", 0))
        a, kw = ev.args(t)
        r = kw.get("ring", a[1] if len(a) > 1 else False)
        if not isinstance(r, bool):
            raise Unknown("ring")
        return CS(cs.verts, r)

    def ends(self, b):
        return [x for v in b.cs.verts for x in v]

    def seglen(self, b):
        a, c = b.cs.verts
        if repr(a) > repr(c):
            a, c = c, a
        return self.funs("length", *(a + c))

    # -- edges
    def vertex(self, v):
        if isinstance(v, Geo) and v.kind == "Point":
            v = v.cs.verts[0]
        if isinstance(v, Arr) and v.ndim == 1:
            v = tuple(v.data)
        if isinstance(v, (tuple, list)) and len(v) in (2, 3) and all(isnum(x) for x in v[:2]):
            for i, w in enumerate(self.V):
                if num(v[0]).same(w[0]) and num(v[1]).same(w[1]):
                    return i
        return None

    def edge(self, x):
        """the pair of vertex numbers that an element of an iteration stands for"""
        if isinstance(x, Geo):
            x = x.cs.verts if len(x.cs.verts) == 2 and not x.cs.ring else None
        if isinstance(x, Arr) and x.ndim == 2 and x.shape[0] == 2:
            x = [x.get(0), x.get(1)]
        if isinstance(x, (tuple, list)) and len(x) == 2:
            a, b = self.vertex(x[0]), self.vertex(x[1])
            if a is not None and b is not None:
                return (a, b)
        return None


class Ev27(SymEval):
    """iterates over coordinates and points too"""
    def elems(self, v):
        if isinstance(v, CS):
            return list(v.verts)
        return SymEval.elems(self, v)

    def seq(self, t):
        try:
            v = self.ev(canon(t))
        except (Unknown, NotImplementedError):
            v = None
        if isinstance(v, CS):
            return list(v.verts)
        return SymEval.seq(self, t)

    def builtin(self, t, n):
        s = n.split(".")[-1]
        if n.startswith("numpy.") and s in ("min", "max", "amin", "amax", "minimum", "maximum"):
            a, kw = self.args(t)
            return self.funs(s, *[x for y in a for x in (y.data if isinstance(y, Arr) else
                                                       self.elems(y) if isinstance(y, (list, tuple)) else [y])])
        return SymEval.builtin(self, t, n)


def runs(p, rep, c, name):
    f = None
    for k in c.mro():
        if hasattr(k, "methods") and name in k.methods:
            f = k.methods[name]
            break
    if f is None:
        return None, None, []
    rep.fn(f.qual)
    it = Interp(p, P27())
    try:
        return f, it, it.run(f, c)
    except (Overflow, RecursionError, Exception) as e:
        rep.undec("%s: %s" % (name, type(e).__name__))
        return f, None, []


SELF = mk("param", "self")


def each_path(p, rep, c, name, geos=(False, True), sizes=SIZES):
    """(path, value term, model, evaluator) for every path that an instance can take"""
    f, it, paths = runs(p, rep, c, name)
    for q in paths:
        if q.kind != "return" or q.value is None:
            continue
        v = it.reify(q.value, q.state)
        selfs = [t for t in walk(v) if t.op == "param" and t.args[0] == "self"] + [SELF]
        for n in sizes:
            for g in geos:
                m = Model(n, g, selfs[0])
                ev = Ev27(m.env, m.call, m.funs)
                possible = True
                for cnd, val in q.conds:
                    try:
                        if ev.truth(cnd) != bool(val):
                            possible = False
                            break
                    except (Unknown, Fault, NotImplementedError):
                        continue
                    except Exception:
                        continue
                if possible:
                    yield q, v, m, ev


def ring_edges(n):
    return {frozenset((i, (i + 1) % n)) for i in range(n)}


def cover(rep, name, m, es, where, ordered=False):
    """es: list of vertex pairs visited"""
    want = ring_edges(m.n)
    got = [frozenset(e) for e in es]
    missing = [e for e in want if e not in got]
    extra = [e for e in got if e not in want]
    if missing:
        e = sorted(missing[0])
        closing = missing[0] == frozenset((0, m.n - 1))
        rep.bad("edges", name, "%s never visits %s of a ring of %d vertices" % (
            name, "the closing edge" if closing else "the edge between vertices %s" % (e,), m.n), where)
        return False
    if extra:
        rep.bad("edges", name, "%s visits %s, which is not an edge of the ring" % (name, sorted(extra[0])), where)
        return False
    cnt = {e: got.count(e) for e in want}
    if len(set(cnt.values())) != 1:
        rep.bad("edges", name, "%s visits some edges more often than others" % name, where)
        return False
    if ordered and len({(b - a) % m.n for a, b in es}) != 1:
        rep.bad("edges", name, "%s runs along its edges in different directions" % name, where)
        return False
    return True


def sequences(p, rep, c):
    """operations that hand out the edges themselves"""
    for name in ("segments", "segment_tuples", "_segment_tuples_in"):
        done = set()
        for q, v, m, ev in each_path(p, rep, c, name, geos=(False,)):
            try:
                xs = ev.elems(ev.ev(v))
            except Fault as e:
                rep.bad("edges", name, "%s fails: %s" % (name, e), q.where)
                continue
            except Exception as e:
                rep.undec("%s: %s" % (name, str(e)[:80]))
                continue
            es = [m.edge(x) for x in xs]
            if None in es:
                rep.undec("%s: elements are not pairs of vertices" % name)
                continue
            if cover(rep, name, m, es, q.where, ordered=True):
                rep.ok("%s: the %d edges of the ring" % (name, m.n), q.where)


def closed(p, rep, c):
    """operations that hand out the closed ring"""
    for name in ("vertices_ring", "to_line"):
        for q, v, m, ev in each_path(p, rep, c, name, geos=(False,)):
            try:
                r = ev.ev(v)
                cs = r.cs if isinstance(r, Geo) else r if isinstance(r, CS) else m.coords(ev, v)
            except Exception as e:
                rep.undec("%s: %s" % (name, str(e)[:80]))
                continue
            ix = [m.vertex(x) for x in cs.verts]
            if None in ix:
                rep.undec("%s: vertices" % name)
            elif cs.ring:
                rep.undec("%s: ring" % name)
            elif len(ix) != m.n + 1 or ix[0] != ix[-1] or not cover_quiet(m, list(zip(ix, ix[1:]))):
                rep.bad("closed", name, "the vertices %s are not the closed ring of %d vertices" % (ix, m.n), q.where)
            else:
                rep.ok("%s: closed ring of %d vertices" % (name, m.n), q.where)


def cover_quiet(m, es):
    got = [frozenset(e) for e in es]
    return set(got) == ring_edges(m.n) and len(got) == m.n


def shoelace(m):
    s = rconst(0)
    for i in range(m.n):
        j = (i + 1) % m.n
        s = s + m.X[i] * m.Y[j] - m.X[j] * m.Y[i]
    return s * rconst(Fraction(1, 2))


def measures(p, rep, c):
    # winding: the sign of the shoelace sum
    for q, v, m, ev in each_path(p, rep, c, "isclockwise", geos=(False,)):
        r = sign_test(ev, v)
        if r is None:
            rep.undec("isclockwise: result is not a sign test")
            continue
        A = shoelace(m)
        k = ratio(r, A)
        if k is None:
            # definitely different?
            if equal(m.funs, r * at0(A, m), A * at0(r, m)) is False:
                rep.bad("winding", "isclockwise", "the sign tested is not that of the ring's signed area", q.where)
            else:
                rep.undec("isclockwise: normal form")
        elif k > 0:
            rep.bad("winding", "isclockwise", "the test is true for counter-clockwise rings", q.where)
        else:
            rep.ok("isclockwise: sign of the signed area of %d vertices" % m.n, q.where)
    # area
    for q, v, m, ev in each_path(p, rep, c, "area"):
        try:
            r = num(ev.ev(v))
        except Fault as e:
            rep.bad("area", "area", "the area cannot be computed: %s" % e, q.where)
            continue
        except Exception as e:
            rep.undec("area: %s" % str(e)[:80])
            continue
        sub = ratom("sub_area")
        if not m.geo:
            want = ev.fun("abs", shoelace(m)) - sub
            d = equal(m.funs, r, want)
            if d is False:
                rep.bad("area", "planar area", "not the area of the ring less its sub-polygons (%d vertices)" % m.n, q.where)
            elif d is None:
                rep.undec("area: planar normal form")
            else:
                rep.ok("area: planar, shoelace of %d vertices" % m.n, q.where)
            continue
        kern = [(n, a, atom) for n, a, atom in m.funs.tab if n in ("spherical_area", "ellipsoidal_area")]
        if not kern:
            rep.undec("area: geodetic kernel not recognised")
            continue
        es, odd = [], False
        for n, a, atom in kern:
            e = pair_of(m, a)
            odd = odd or e is None
            es.append(e)
        if odd:
            rep.undec("area: arguments of the geodetic kernel")
            continue
        if cover(rep, "geodetic area", m, es, q.where, ordered=True):
            total = rconst(0)
            for n, a, atom in kern:
                total = total + atom
            d = equal(m.funs, r, ev.fun("abs", total) - sub)
            if d is False and (r + sub).same(ev.fun("abs", total)) is False:
                rep.bad("area", "geodetic area", "not the absolute sum over the edges less the sub-polygons", q.where)
            elif d:
                rep.ok("area: geodetic, %d edges" % m.n, q.where)
            else:
                rep.undec("area: geodetic normal form")
    # perimeter
    for q, v, m, ev in each_path(p, rep, c, "perimeter", geos=(False,)):
        try:
            r = num(ev.ev(v))
        except Exception as e:
            rep.undec("perimeter: %s" % str(e)[:80])
            continue
        want = ratom("sub_perimeter")
        for i in range(m.n):
            want = want + m.seglen(Geo("Line", CS([m.V[i], m.V[(i + 1) % m.n]], False)))
        d = equal(m.funs, r, want)
        if d is True:
            rep.ok("perimeter: %d edges and the sub-polygons" % m.n, q.where)
        elif r.d == {(): 1} and all(m.funs.entry(k) is None or m.funs.entry(k)[0] == "length" for k in r.atoms()):
            rep.bad("perimeter", "perimeter", "not the sum of the ring's %d edges and the perimeters of its sub-polygons" % m.n, q.where)
        else:
            rep.undec("perimeter: normal form")
    # centroid
    for q, v, m, ev in each_path(p, rep, c, "centroid", geos=(False,)):
        try:
            o = ev.ev(v)
            cx, cy = o.cs.verts[0][:2]
        except Exception as e:
            rep.undec("centroid: %s" % str(e)[:80])
            continue
        A = shoelace(m)
        for k, got, Z in ((0, cx, m.X), (1, cy, m.Y)):
            s = rconst(0)
            for i in range(m.n):
                j = (i + 1) % m.n
                s = s + (Z[i] + Z[j]) * (m.X[i] * m.Y[j] - m.X[j] * m.Y[i])
            want = s / (rconst(6) * A)
            d = equal(m.funs, got, want)
            if d is False:
                rep.bad("centroid", "centroid", "coordinate %d is not the centroid of the ring of %d vertices" % (k, m.n), q.where)
            elif d is None:
                rep.undec("centroid: normal form")
            else:
                rep.ok("centroid: coordinate %d of %d vertices" % (k, m.n), q.where)


def at0(r, m):
    """the number at one instance of the vertices (to compare two forms up to a factor)"""
    vals = {}
    for i in range(m.n):
        vals["x%d" % i] = rconst(Fraction((3 * i * i + 7 * i + 2) % 11))
        vals["y%d" % i] = rconst(Fraction((5 * i * i + 3 * i + 1) % 13))
    return r.subst(lambda k: vals.get(k))


def ratio(r, A):
    """k with r == k*A, if there is one"""
    key = sorted(A.n, key=repr)[0]
    c = r.n.get(key)
    if c is None or r.d != {(): 1} or A.d != {(): 1}:
        return None
    k = c / A.n[key]
    return k if r.same(A * rconst(k)) else None


def sign_test(ev, v):
    """R where the term tests R > 0 (or >= 0)"""
    if v.op == "not":
        r = sign_test(ev, v.args[0])
        return None if r is None else -r
    if extname(v) == "bool":
        return sign_test(ev, cargs(v)[0])
    if v.op == "cmp" and v.args[0] in ("<", "<="):
        try:
            return num(ev.ev(v.args[2])) - num(ev.ev(v.args[1]))
        except (Unknown, Fault):
            return None
    return None


def pair_of(m, args):
    """the vertices whose coordinates appear among the arguments"""
    keys = set()
    for a in args:
        if isinstance(a, Rat):
            keys |= a.atoms()
    ix = sorted({int(k[1:]) for k in keys if isinstance(k, str) and k[0] in "xy" and k[1:].isdigit()})
    if len(ix) != 2:
        return None
    # direction: the vertex whose abscissa comes first
    for a in args:
        if isinstance(a, Rat):
            for k in sorted(a.atoms()):
                if k[0] == "x" and k[1:].isdigit():
                    f = int(k[1:])
                    return (f, ix[0] if ix[1] == f else ix[1])
    return None


def searches(p, rep, c):
    """operations that go over the boundary to look for something"""
    for name in ("_nearest_to_point", "nearest_on_boundary", "shortest_distance_to", "within_distance", "crosses_dateline",
                 "intersections"):
        for q, v, m, ev in each_path(p, rep, c, name):
            its, es, unknown = {}, [], False
            for t in walk(v):
                if t.op in ("each", "fold"):
                    its.setdefault(canon(t.args[0]), t.args[1])
            for it, depth in its.items():
                if it.op == "list" and it.args and it.args[0].op == "each" and not all_edges(m, ev, it):
                    continue                                   # values computed per edge: its own iterable counts
                try:
                    xs = ev.seq(it)
                except Fault as e:
                    continue
                except Exception as e:
                    unknown = True
                    continue
                ed = [m.edge(x) for x in xs]
                if xs and None not in ed:
                    es.append((it, ed))
            if not es:
                if m.kernels or "kernel" in name or name == "intersections":
                    continue
                rep.undec("%s: no loop over edges recognised" % name)
                continue
            # nested iterables derived from one another visit the same edges
            best = max((e for _, e in es), key=len)
            if cover(rep, name, m, best, q.where):
                rep.ok("%s: visits the %d edges of the ring" % (name, m.n), q.where)


def all_edges(m, ev, it):
    try:
        xs = ev.seq(it)
    except Exception:
        return False
    return bool(xs) and all(m.edge(x) is not None for x in xs)


RINGS = {"bbox": "the bounding box of a ring includes the bulge and dateline crossing of its closing edge",
         "intersects": "", "intersects_sph": "", "all_intersections": "", "contains": "", "contains_proj": "", "length": ""}


def carried(p, rep, c):
    """coordinates expressed in another system stay a ring"""
    name = "_vertices_in"
    f, it, paths = runs(p, rep, c, name)
    for q in paths:
        if q.kind != "return" or q.value is None:
            continue
        v = it.reify(q.value, q.state)
        for ring in (True, False):
            m = Model(4, False, SELF)
            m.poly.cs.ring = ring
            m.env[mk("param", "crs")] = Opaque("another system")
            ev = Ev27(m.env, m.call, m.funs)
            try:
                if any(ev.truth(cnd) != bool(val) for cnd, val in q.conds):
                    continue
                r = ev.ev(v)
            except Exception as e:
                rep.undec("%s: %s" % (name, str(e)[:60]))
                continue
            kind = "polygon" if ring else "line"
            if not isinstance(r, CS):
                rep.undec("%s: result" % name)
            elif r.ring != ring or len(r.verts) != 4:
                rep.bad("ring", name, "the coordinates of a %s in another system are %s of %d vertices" % (
                    kind, "a ring" if r.ring else "an open line", len(r.verts)), q.where)
            else:
                rep.ok("%s: a %s stays one in another system" % (name, kind), q.where)


def polar(p, rep, c):
    """the angle around the pole is summed over every edge"""
    name = "ispolar"
    f, it, paths = runs(p, rep, c, name)
    for q in paths:
        if q.kind != "return" or q.value is None:
            continue
        folds = folds_of(it, q)
        es = [e for e in q.events if e.kind == "call" and e.loops and e.term.args[0].args and
              str(e.term.args[0].args[0]).split(".")[-1] == "crosses_dateline"]
        for n in SIZES:
            m = Model(n, True, SELF)
            got, und = set(), not es
            for e in es:
                ev = Ev27(m.env, m.call, m.funs)
                try:
                    for _ in iterations(ev, e.loops, folds):
                        a, kw = ev.args(e.term)
                        ix = []
                        for x in list(a) + [kw[k] for k in sorted(kw)]:
                            ats = {t for t in num(x).atoms()}
                            if len(ats) == 1:
                                ent = m.funs.entry(next(iter(ats)))
                                if ent is not None and len(ent[1]) == 1:
                                    x = ent[1][0]
                            ix.extend(i for i, w in enumerate(m.X) if num(x).same(w))
                        if len(ix) != 2:
                            raise Unknown("longitudes")
                        got.add(frozenset(ix))
                except Exception as x:
                    und = True
            if und:
                rep.undec("%s: %s" % (name, "edges not recognised"))
                break
            miss = ring_edges(n) - got
            if miss:
                rep.bad("edges", name, "%s never turns along the edge between vertices %s of a ring of %d vertices" % (
                    name, sorted(sorted(miss, key=sorted)[0]), n), es[0].where)
            else:
                rep.ok("%s: turns along the %d edges of the ring" % (name, n), es[0].where)


def handed_over(p, rep, c):
    """coordinates of a polygon handed to a kernel are marked as a ring"""
    for name in ("bbox", "intersects", "intersections", "contains"):
        for q, v, m, ev in each_path(p, rep, c, name, sizes=(3,)):
            for t in walk(v):
                if t.op != "call" or extname(t) is not None:
                    continue
                kname = str(t.args[0].args[0]).split(".")[-1] if t.args[0].args else ""
                qual = str(t.args[0].args[0]) if t.args[0].args else ""
                if kname not in RINGS:
                    continue
                if kname == "bbox" and "dateline" not in qual:
                    continue                       # planar boxes depend on the vertices only
                try:
                    a, kw = ev.args(t)
                except Exception as e:
                    rep.undec("%s: arguments of %s" % (name, kname))
                    continue
                for x in list(a) + list(kw.values()):
                    if isinstance(x, CS):
                        if not x.ring:
                            rep.bad("ring", "%s -> %s" % (name, kname),
                                    "a polygon's coordinates are handed to %s as an open line: its closing edge is lost" % kname,
                                    q.where)
                        else:
                            rep.ok("%s: %s gets a ring" % (name, kname), q.where)


def check():
    rep = Report("C27", RULE)
    rep.minimum = 3
    p = Program()
    m = p.modules[GEOM]
    c = m.classes.get("Polygon")
    if c is None:
        rep.undec("class Polygon not found")
        return rep
    sequences(p, rep, c)
    closed(p, rep, c)
    measures(p, rep, c)
    searches(p, rep, c)
    handed_over(p, rep, c)
    for f in (carried, polar):
        try:
            f(p, rep, c)
        except Exception as e:
            rep.undec("%s: %s" % (f.__name__, type(e).__name__))
    kernels(p, rep)
    return rep


# -- the Cython kernels
PREDICATES = ("_intersects", "_intersects_sph", "intersection", "intersection_sph", "bndlat_sph", "crosses_dateline",
              "intersects_cn")


class PK(ResultPolicy):
    """inlines helpers, but not the predicates over single segments"""
    max_depth = 4

    def inline(self, interp, f, recv, depth):
        return f.module.name.startswith("karta.vector.") and f.name not in PREDICATES and \
            f.name not in ("Vector2", "Vector3", "bboxes_overlap")


class Ext(object):
    """least or greatest of a set of numbers"""
    def __init__(self, kind, items):
        self.kind = kind
        self.items = items


class Kernel(object):
    def __init__(self, sizes):
        self.funs = Funs()
        self.env = {}
        self.V = {}
        for name, n, ring in sizes:
            vs = [(ratom("%sx%d" % (name, i)), ratom("%sy%d" % (name, i))) for i in range(n)]
            self.V[name] = vs
            self.env[mk("param", name)] = CS(vs, ring)

    def call(self, ev, t):
        m = Model.__new__(Model)
        m.funs = self.funs
        if t.op in ("attr", "len", "item", "mcall"):
            b = t.args[0]
            b = self.env.get(b) if isinstance(b, T) else None
            if isinstance(b, CS):
                m.obj = lambda ev, x: b
                return Model.call(m, ev, t)
            raise NotImplementedError
        if t.op == "call":
            n = extname(t)
            n = n.split(".")[-1] if n is not None else None
            if n in ("fmin", "fmax", "min", "max"):
                a, kw = ev.args(t)
                if len(a) == 1 and isinstance(a[0], (list, tuple)):
                    a = a[0]
                out = []
                for x in a:
                    if isinstance(x, Ext):
                        if x.kind != n[-3:]:
                            raise Unknown("mixed extremes")
                        out.extend(x.items)
                    elif isnum(x):
                        out.append(num(x))
                    else:
                        raise Unknown(n)
                if all(x.const() is not None for x in out):
                    raise NotImplementedError
                return Ext(n[-3:], out)
            name = str(t.args[0].args[0]).split(".")[-1] if t.args[0].args else ""
            if name == "__out__":
                a = [x for _, x in t.args[1]]
                if len(a) == 2 and a[1].op == "call":
                    e = edge_args(self, ev, a[1], "bndlat_sph")
                    if e is not None:
                        return self.funs("bulge:%s" % cval(a[0]), *sorted(e))
                raise Unknown("out argument")
            if name in ("crosses_dateline", "bndlat_sph"):
                return 0
        raise NotImplementedError

    def vertex(self, x, y):
        """(operand, number) of the vertex with these coordinates"""
        for name, vs in self.V.items():
            for i, (a, b) in enumerate(vs):
                if num(x).same(a) and num(y).same(b):
                    return name, i
        return None


def folds_of(it, q):
    out = {}
    ts = [it.reify(v, q.state) for v in q.state.env.values() if isinstance(v, T)]
    if isinstance(q.value, T):
        ts.append(it.reify(q.value, q.state))
    seen = set()
    for t in ts:
        for x in walk(t, seen):
            if x.op == "fold" and x.args[2].op == "lv":
                out[x.args[2]] = x
    return out


def iterations(ev, loops, folds, depth=0):
    """the iterations of nested loops with the values that loop variables have in them"""
    if depth == len(loops):
        yield
        return
    it = canon(loops[depth])
    mine = {lv: f for lv, f in folds.items() if f.args[1] == depth and canon(f.args[0]) is it}
    vals = {lv: ev.ev(f.args[3]) for lv, f in mine.items()}
    for _ in ev.iterate(loops[depth], depth):
        ev.memo = {}
        ev.lvs.update(vals)
        for _ in iterations(ev, loops, folds, depth + 1):
            yield
        ev.memo = {}
        new = {}
        for lv, f in mine.items():
            new[lv] = vals[lv]
            try:
                for cs, val in f.args[4]:
                    if ev.holds(cs):
                        new[lv] = ev.ev(val)
                        break
            except (Unknown, NotImplementedError):
                new[lv] = None
        vals = new
    for lv in mine:
        ev.lvs.pop(lv, None)


def kernel_paths(p, rep, mod, name, sizes):
    m = p.modules.get(mod)
    f = m.funcs.get(name) if m is not None else None
    if f is None:
        return
    rep.fn(f.qual)
    it = Interp(p, PK())
    try:
        paths = it.run(f, None)
    except Exception as e:
        rep.undec("%s: %s" % (name, type(e).__name__))
        return
    for q in paths:
        k = Kernel(sizes)
        names = [x for x in f.params() if x in k.V] if hasattr(f, "params") and callable(f.params) else []
        ev = SymEval(k.env, k.call, k.funs)
        ok = True
        for c, v in q.conds:
            if any(x.op in ("elem", "idx", "lv") for x in walk(c)):
                continue
            try:
                if ev.truth(c) != bool(v):
                    ok = False
                    break
            except Exception:
                continue
        if ok:
            yield it, q, k, ev


def open_edges(n, ring):
    return {frozenset((i, (i + 1) % n)) for i in range(n if ring else n - 1)}


def segment_args(k, t, ev):
    """the segments that a call of a predicate over two segments is given, by the names of its parameters"""
    a, kw = ev.args(t)
    if a:
        names = ("x0", "x1", "x2", "x3", "y0", "y1", "y2", "y3")
        for n, v in zip(names, a):
            kw.setdefault(n, v)
    vs = []
    for i in range(4):
        x, y = num(kw["x%d" % i]), num(kw["y%d" % i])
        v = k.vertex(x, y)
        if v is None:
            if any(x.same(w[0]) for vs_ in k.V.values() for w in vs_) and any(y.same(w[1]) for vs_ in k.V.values() for w in vs_):
                raise Fault("abscissa %s paired with ordinate %s" % (x, y))
            raise Unknown("vertex")
        vs.append(v)
    return vs


def pairs(p, rep):
    """every pair of edges is tested"""
    mod = "karta.vector.intersection"
    for name in ("intersects", "intersects_sph", "all_intersections"):
        for ra in (True, False):
            for rb in (True, False):
                sizes = (("a", 4, ra), ("b", 3, rb))
                got, where, bad, und, tested = set(), None, None, None, None
                n = 0
                for it, q, k, ev in kernel_paths(p, rep, mod, name, sizes):
                    v = q.value
                    if q.kind != "return":
                        continue
                    inloop = any(x.op in ("elem", "lv") for c, _ in q.conds for x in walk(c))
                    if inloop:
                        if isinstance(v, T) and v.op == "const" and not v.args[0] and name != "all_intersections":
                            cs = [(c, x) for c, x in q.conds if any(y.op in ("elem", "lv") for y in walk(c))]
                            if all(not x and c.op == "call" and str(c.args[0].args[0]).split(".")[-1] in PREDICATES
                                   for c, x in cs if c.args and isinstance(c.args[0], T) and c.args[0].args):
                                bad, where = "answers no as soon as two segments do not meet", q.where
                            else:
                                und = "answers no inside the loop"
                        for e in q.events:
                            if e.kind == "call" and e.loops and e.term.args[0].args and \
                                    str(e.term.args[0].args[0]).split(".")[-1] in PREDICATES:
                                tested = e.where
                        continue
                    folds = folds_of(it, q)
                    n += 1
                    for e in q.events:
                        if e.kind != "call" or not e.term.args[0].args:
                            continue
                        cn = str(e.term.args[0].args[0]).split(".")[-1]
                        if cn not in ("_intersects", "_intersects_sph", "intersection", "intersection_sph"):
                            continue
                        where = where or e.where
                        try:
                            for _ in iterations(ev, e.loops, folds):
                                if not ev.holds(e.conds[len(q.conds):]):
                                    continue
                                vs = segment_args(k, e.term, ev)
                                (o0, i0), (o1, i1), (o2, i2), (o3, i3) = vs
                                if (o0, i0) == (o1, i1) or (o2, i2) == (o3, i3):
                                    bad = "a segment given to %s has no length" % cn
                                    continue
                                if o0 != o1 or o2 != o3 or o0 == o2:
                                    bad = "the two segments given to %s are not one of each operand" % cn
                                    continue
                                if o0 == "b":
                                    i0, i1, i2, i3 = i2, i3, i0, i1
                                got.add((frozenset((i0, i1)), frozenset((i2, i3))))
                        except Fault as x:
                            bad = "segments are wrong: %s" % x
                        except Exception as x:
                            und = str(x)[:60] or type(x).__name__
                kinds = "%s of 4 and %s of 3 vertices" % ("ring" if ra else "line", "ring" if rb else "line")
                want = {(x, y) for x in open_edges(4, ra) for y in open_edges(3, rb)}
                if bad:
                    rep.bad("pairs", name, "%s: %s (%s)" % (name, bad, kinds), where)
                elif n and not where and not und and tested:
                    rep.bad("pairs", name, "%s: the loop over segments never gets beyond its first iteration (%s)" % (name, kinds),
                            tested)
                elif und or not n or not where:
                    rep.undec("%s: %s" % (name, und or "no test of segments recognised"))
                elif want - got:
                    x, y = sorted((sorted(a), sorted(b)) for a, b in want - got)[0]
                    rep.bad("pairs", name, "%s (%s) never tests the edge %s of the first against the edge %s of the second" % (
                        name, kinds, x, y), where)
                elif got - want:
                    x, y = sorted((sorted(a), sorted(b)) for a, b in got - want)[0]
                    rep.bad("pairs", name, "%s (%s) tests %s and %s, which are not both edges" % (name, kinds, x, y), where)
                else:
                    rep.ok("%s: %d pairs of edges (%s)" % (name, len(want), kinds), where)


def lengths(p, rep):
    for n in SIZES:
        for ring in (True, False):
            for it, q, k, ev in kernel_paths(p, rep, "karta.vector.vectorgeo", "length", (("cs", n, ring),)):
                if q.kind != "return":
                    continue
                kind = "%s of %d vertices" % ("ring" if ring else "line", n)
                try:
                    folds = folds_of(it, q)
                    v = joint(ev, it.reify(q.value, q.state), folds)
                    if not isnum(v):
                        raise Unknown("value")
                except Fault as x:
                    rep.bad("length", "length", "length of a %s fails with %s" % (kind, x), q.where)
                    continue
                except Exception as x:
                    rep.undec("length: %s" % (str(x)[:60] or type(x).__name__))
                    continue
                w = rconst(0)
                V = k.V["cs"]
                for e in open_edges(n, ring):
                    i, j = sorted(e)
                    s = ev.fun("sqrt", (V[j][0] - V[i][0]) * (V[j][0] - V[i][0]) + (V[j][1] - V[i][1]) * (V[j][1] - V[i][1]))
                    w = w + s
                if num(v).same(w):
                    rep.ok("length: the edges of a %s" % kind, q.where)
                else:
                    rep.bad("length", "length", "the planar length of a %s is not the sum over its %d edges" % (
                        kind, len(open_edges(n, ring))), q.where)


def hulls(p, rep):
    """the loops of the convex hulls over the vertices visit each vertex, and none by two numbers"""
    cs = mk("param", "cs")
    for name in ("convexhull", "convexhull_sph"):
        for n in (3, 5):
            for ring in (True, False):
                tag = "%s of a %s of %d vertices" % (name, "ring" if ring else "line", n)
                got, bad, where = set(), None, None
                for it, q, k, ev in kernel_paths(p, rep, "karta.vector.convexhull", name, (("cs", n, ring),)):
                    if q.kind != "return" or not isinstance(q.value, T):
                        continue
                    where = q.where
                    v = it.reify(q.value, q.state)
                    direct = {y.args[2][0][1].args[0] for y in walk(v) if y.op == "mcall" and y.args[0] is cs and len(y.args[2]) == 1
                              and y.args[1] in ("getX", "getY") and y.args[2][0][1].op == "elem"}
                    for x in walk(v):
                        if x.op not in ("each", "fold", "elem", "idx") or not isinstance(x.args[0], T) or \
                                not contains(x.args[0], cs) or x.args[0].op != "call" or loopy(x.args[0]) or \
                                extname(x.args[0]) not in ("range", "xrange"):
                            continue
                        try:
                            ns = [num(i).const() for i in ev.seq(x.args[0])]
                        except Exception:
                            continue
                        if any(i is None for i in ns):
                            continue
                        if any(not 0 <= i < n for i in ns) and x.args[0] in direct:
                            bad = "vertices are visited by the numbers %d to %d" % (min(ns), max(ns))
                        if x.op != "idx":
                            got |= set(int(i) for i in ns)
                if where is None:
                    rep.undec("%s: no path" % tag)
                elif bad:
                    rep.bad("hull", name, "%s: %s" % (tag, bad), where)
                elif got == set(range(n)):
                    rep.ok("%s: each vertex once" % tag, where)
                else:
                    rep.undec("%s: loops over the vertices" % tag)


def joint(ev, v, folds):
    """value of a term over a finished loop, its variables stepped together"""
    tops = {}
    for x in walk(v):
        if x.op == "fold" and x.args[2] in folds and x.args[1] == 0:
            tops.setdefault(canon(x.args[0]), x)
    for itc, x in tops.items():
        mine = {lv: f for lv, f in folds.items() if f.args[1] == 0 and canon(f.args[0]) is itc}
        vals = {lv: ev.ev(f.args[3]) for lv, f in mine.items()}
        for _ in ev.iterate(x.args[0], 0):
            ev.memo = {}
            ev.lvs.update({k: w for k, w in vals.items() if w is not None})
            for k, w in vals.items():
                if w is None:
                    ev.lvs.pop(k, None)
            new = {}
            for lv, f in mine.items():
                new[lv] = vals[lv]
                try:
                    for cs, val in f.args[4]:
                        if ev.holds(cs):
                            new[lv] = ev.ev(val)
                            break
                except (Unknown, NotImplementedError):
                    new[lv] = None
            vals = new
        for lv in mine:
            ev.lvs.pop(lv, None)
        ev.memo = {}
        for lv, f in mine.items():
            if vals[lv] is not None:
                ev.env[f] = vals[lv]
    return ev.ev(v)


def boxes(p, rep):
    """the loops behind bounding boxes reach every vertex and every edge"""
    for mod in ("karta.vector.dateline", "karta.vector.vectorgeo"):
        for n in SIZES:
            for ring in (True, False):
                kind = "%s of %d vertices" % ("ring" if ring else "line", n)
                seen = {}
                for it, q, k, ev in kernel_paths(p, rep, mod, "bbox", (("cs", n, ring),)):
                    if q.kind != "return":
                        continue
                    folds = folds_of(it, q)
                    v = it.reify(q.value, q.state)
                    for e in q.events:
                        if e.kind != "call" or not e.term.args[0].args:
                            continue
                        cn = str(e.term.args[0].args[0]).split(".")[-1]
                        if cn not in ("bndlat_sph", "crosses_dateline"):
                            continue
                        try:
                            for _ in iterations(ev, e.loops, folds):
                                if ev.holds(e.conds[len(q.conds):]):
                                    seen.setdefault((cn, e.where), set()).add(edge_args(k, ev, e.term, cn))
                        except Fault as x:
                            rep.bad("edges", "%s.bbox" % mod, "the segments of a %s are wrong: %s" % (kind, x), e.where)
                        except Exception as x:
                            seen.setdefault((cn, e.where), set()).add(None)
                    if v.op != "tuple" or len(v.args) != 4:
                        continue
                    for j, x in enumerate(v.args):
                        extreme(rep, ev, it, x, folds, k, j, n, kind, mod, q)
                bycall = {}
                for (cn, where), es in seen.items():
                    bycall.setdefault(cn, [set(), where])[0].update(es)
                for cn, (es, where) in sorted(bycall.items()):
                    if None in es:
                        rep.undec("%s.bbox: arguments of %s" % (mod, cn))
                        continue
                    miss = open_edges(n, ring) - {frozenset(x) for x in es}
                    if miss:
                        rep.bad("edges", "%s.bbox" % mod, "the bounding box of a %s ignores the edge between vertices %s (%s)" % (
                            kind, sorted(sorted(miss, key=sorted)[0]), cn), where)
                    else:
                        rep.ok("%s.bbox: %s for every edge of a %s" % (mod, cn, kind), where)


def edge_args(k, ev, t, cn):
    a = [x for _, x in (t.args[1])]
    if cn == "crosses_dateline":
        xs = [ev.ev(x) for x in a[:2]]
        out = []
        for x in xs:
            i = [i for i, w in enumerate(k.V["cs"]) if num(x).same(w[0])]
            if len(i) != 1:
                return None
            out.append(i[0])
        return tuple(out)
    out = []
    for x in a[:2]:
        c = [ev.ev(y) for _, y in cargs_of(x)]
        v = k.vertex(*c[:2])
        if v is None:
            if any(num(c[0]).same(w[0]) for w in k.V["cs"]) and any(num(c[1]).same(w[1]) for w in k.V["cs"]):
                raise Fault("abscissa %s paired with ordinate %s" % (c[0], c[1]))
            return None
        out.append(v[1])
    return tuple(out)


def cargs_of(t):
    if t.op == "call":
        return t.args[1]
    if t.op == "new":
        return t.args[-1] if isinstance(t.args[-1], tuple) else t.args[1]
    raise Unknown("vector")


def extreme(rep, ev, it, x, folds, k, j, n, kind, mod, q):
    """component j of a box must be the least (greatest) coordinate of all vertices"""
    name = "%s.bbox" % mod
    fs = [y for y in walk(x) if y.op == "fold"]
    fs = [y for y in fs if any(z.op == "call" and (extname(z) or "").split(".")[-1] in ("fmin", "fmax", "min", "max")
                               for c, val in y.args[4] for z in walk(val))]
    what = ("xmin", "ymin", "xmax", "ymax")[j]
    if not fs:
        try:
            rs = [joint(ev, y, folds) for y in walk(x) if y.op == "fold"]
            rs = [num(r) for r in rs if not isnum(r) or num(r).const() is None]
        except Exception:
            return
        if rs and all(len(r.atoms()) == 1 for r in rs):
            rep.bad("extreme", name, "%s of a %s is the coordinate of a single vertex or edge" % (what, kind), q.where)
        return
    try:
        r = joint(ev, fs[0], folds)
    except Exception as e:
        rep.undec("%s: %s" % (name, str(e)[:60]))
        return
    if not isinstance(r, Ext):
        rep.undec("%s: component %d" % (name, j))
        return
    coords = [w[j % 2] for w in k.V["cs"]]
    if r.kind != ("min" if j < 2 else "max"):
        rep.bad("extreme", name, "%s of the bounding box is the %s of coordinates" % (what, "greatest" if r.kind == "max" else "least"),
                q.where)
        return
    if mod.endswith("dateline") and j % 2 == 1:
        ents = [k.funs.entry(a) for y in r.items for a in y.atoms()]
        got = {frozenset(int(z.const()) for z in e[1]) for e in ents if e and e[0].startswith("bulge:")}
        names = {e[0] for e in ents if e and e[0].startswith("bulge:")}
        missing = open_edges(len(coords), k.env[mk("param", "cs")].ring) - got
        if len(names) != 1:
            rep.undec("%s: %s from %s" % (name, what, sorted(names)))
        elif missing:
            rep.bad("extreme", name, "%s of a %s ignores the edge between vertices %s" % (
                what, kind, sorted(sorted(missing, key=sorted)[0])), q.where)
        else:
            rep.ok("%s: %s over the edges of a %s" % (name, what, kind), q.where)
        return
    miss = [i for i, c in enumerate(coords) if not any(c.same(y) for y in r.items)]
    if miss:
        rep.bad("extreme", name, "%s of a %s ignores vertex %d" % (what, kind, miss[0]), q.where)
    else:
        rep.ok("%s: %s over the vertices of a %s" % (name, what, kind), q.where)


def kernels(p, rep):
    for f in (pairs, lengths, boxes, hulls):
        try:
            f(p, rep)
        except Exception as e:
            rep.undec("%s: %s" % (f.__name__, type(e).__name__))
