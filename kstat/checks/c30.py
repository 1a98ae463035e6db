"""C30: web-map tiles address the cells of the spherical Mercator square."""
from ..finite import Fault, Unknown, canon
from ..interp import Interp
from ..iospec import extname
from ..loader import Program
from ..poly import ratom, rconst
from ..report import Report
from ..results import ResultPolicy
from ..symev import SymEval, Funs, PI, equal, isnum, num
from ..terms import T, mk, const, is_const, cval, fmt, arg, walk

TECHNIQUE = "path-wise value terms resolved to normal forms of the tile formulas"
RULE = ("The corner, bounding box and address of a tile with symbolic zoom, column and row (a point with symbolic longitude and "
        "latitude) are resolved to normal forms and must be the formulas of the spherical Mercator tiling: column and row x, y "
        "of zoom z begin at longitude 360 x / 2^z - 180 and latitude atan(sinh(pi (1 - 2 y / 2^z))), and the address of a "
        "point is the inverse of these, rounded down, in the geographical coordinates of the point.")
MOD = "karta.tile"


class P30(ResultPolicy):
    max_depth = 4
    no_inline = ()

    def inline(self, interp, f, recv, depth):
        return f.module.name == MOD


class Ev30(SymEval):
    def builtin(self, t, n):
        if n.split(".")[-1] in ("int", "float", "floor"):
            a, kw = self.args(t)
            if len(a) == 1 and isnum(a[0]):
                x = num(a[0])
                s = n.split(".")[-1]
                if s == "float":
                    return x
                if self.integral(x):
                    return x
                return self.fun("floor" if s == "floor" else "trunc", x)
        return SymEval.builtin(self, t, n)

    def integral(self, x):
        c = x.const()
        if c is not None:
            return c.denominator == 1
        ats = x.atoms()
        if len(ats) == 1:
            k = next(iter(ats))
            if x.same(ratom(k)):
                e = self.funs.entry(k)
                return k in ("z", "zoom", "x", "y") or (e is not None and e[0] in ("floor", "trunc"))
        return False


class Model(object):
    def __init__(self):
        self.funs = Funs()
        self.z, self.x, self.y = ratom("z"), ratom("x"), ratom("y")
        self.lon, self.lat = ratom("lon"), ratom("lat")
        self.px, self.py = ratom("px"), ratom("py")

    def geographic(self, t):
        return t.op == "global" and t.args[1] in ("LonLatWGS84", "SphericalEarth")

    def call(self, ev, t):
        if t.op == "param" and t.args[0] == "zoom":
            return self.z
        if t.op == "attr":
            b, n = t.args
            if b.op == "param" and b.args[0] == "self" and n in ("z", "x", "y"):
                return getattr(self, n)
            if b.op == "param" and b.args[0] == "point":
                if n in ("x", "y"):
                    return self.px if n == "x" else self.py
                if n == "_vertex":
                    return (self.px, self.py)
            if b.op == "new":
                cn = str(b.args[0]).split(".")[-1].strip("'>")
                if cn == "Tile" and n in ("z", "x", "y"):
                    return ev.ev(arg(b, n, ("z", "x", "y").index(n)))
                if cn == "Point" and n in ("x", "y"):
                    v = ev.ev(arg(b, "coords", 0))
                    return ev.elems(v)[0 if n == "x" else 1]
            raise NotImplementedError
        if t.op == "mcall":
            b, n = t.args[0], t.args[1]
            if b.op == "param" and b.args[0] == "point" and n in ("vertex", "get_vertex"):
                c = arg(t, "crs", 0)
                if c is None or is_const(c) and cval(c) is None or c is mk("attr", b, "crs"):
                    return (self.px, self.py)
                if self.geographic(c):
                    return (self.lon, self.lat)
            if n in ("vertex", "get_vertex") and b.op == "new" and arg(t, "crs", 0) is None:
                return tuple(ev.elems(ev.ev(arg(b, "coords", 0))))
            if n == "project" and b.op == "attr" and b.args[1] == "crs" and b.args[0].op == "param":
                a, kw = ev.args(t)
                inv = kw.get("inverse", a[2] if len(a) > 2 else False)
                if len(a) >= 2 and inv is True and num(a[0]).same(self.px) and num(a[1]).same(self.py):
                    return (self.lon, self.lat)
        raise NotImplementedError


def run(p, rep, f, cls=None):
    rep.fn(f.qual)
    it = Interp(p, P30())
    return it, [q for q in it.run(f, cls) if q.kind == "return" and q.value is not None]


def compare(rep, m, what, got, want, where):
    if not isnum(got):
        rep.undec("%s: value" % what)
        return
    r = equal(m.funs, got, want)
    if r is True:
        rep.ok(what, where)
    elif r is False:
        rep.bad("formula", what, "%s is not that of the spherical Mercator tiling" % what, where)
    else:
        rep.undec("%s: another form of the value" % what)


def corner(ev, m, x, y):
    n = ev.op2("**", 2, m.z)
    lon = num(360) * x / num(n) - num(180)
    lat = ev.fun("atan", ev.fun("sinh", PI * (num(1) - num(2) * y / num(n)))) * num(180) / PI
    return lon, lat


def check():
    rep = Report("C30", RULE)
    rep.minimum = 2
    p = Program()
    mod = p.modules.get(MOD)
    c = mod.classes.get("Tile") if mod is not None else None
    if c is None:
        rep.undec("class Tile not found")
        return rep
    for part in (nw, bbox, address, equality):
        try:
            part(p, rep, mod, c)
        except Exception as e:
            rep.undec("%s: %s" % (part.__name__, type(e).__name__))
    return rep


def method(c, n):
    for k in c.mro():
        if hasattr(k, "methods") and n in k.methods:
            return k.methods[n]
    return None


def nw(p, rep, mod, c):
    f = method(c, "nw_corner")
    if f is None:
        rep.undec("nw_corner not found")
        return
    it, paths = run(p, rep, f, c)
    for q in paths:
        m = Model()
        ev = Ev30({mk("param", "zoom"): m.z}, m.call, m.funs)
        v = it.reify(q.value, q.state)
        try:
            xy = ev.elems(ev.ev(arg(v, "coords", 0)))
        except (Unknown, NotImplementedError, AttributeError, TypeError) as e:
            rep.undec("nw_corner: %s" % str(e)[:80])
            continue
        lon, lat = corner(ev, m, m.x, m.y)
        compare(rep, m, "longitude of a tile's corner", xy[0], lon, q.where)
        compare(rep, m, "latitude of a tile's corner", xy[1], lat, q.where)
        k = arg(v, "crs", 3)
        if k is None or (k.op == "global" and not m.geographic(k)):
            rep.bad("crs", "nw_corner", "a tile's corner is not labelled with a geographical system", q.where)


def bbox(p, rep, mod, c):
    f = method(c, "bbox")
    if f is None:
        rep.undec("bbox not found")
        return
    it, paths = run(p, rep, f, c)
    for q in paths:
        m = Model()
        ev = Ev30({mk("param", "zoom"): m.z}, m.call, m.funs)
        try:
            b = ev.elems(ev.ev(it.reify(q.value, q.state)))
        except (Unknown, NotImplementedError) as e:
            rep.undec("bbox: %s" % str(e)[:80])
            continue
        x0, y1 = corner(ev, m, m.x, m.y)
        x1, y0 = corner(ev, m, m.x + num(1), m.y + num(1))
        if len(b) != 4:
            rep.bad("formula", "bbox", "the box of a tile has %d numbers" % len(b), q.where)
            continue
        for n, g, w in zip(("xmin", "ymin", "xmax", "ymax"), b, (x0, y0, x1, y1)):
            compare(rep, m, "%s of a tile" % n, g, w, q.where)


def address(p, rep, mod, c):
    f = mod.funcs.get("tile_from_point")
    if f is None:
        rep.undec("tile_from_point not found")
        return
    it, paths = run(p, rep, f)
    for q in paths:
        m = Model()
        ev = Ev30({mk("param", "zoom"): m.z}, m.call, m.funs)
        v = it.reify(q.value, q.state)
        if v.op != "new":
            rep.undec("tile_from_point: result")
            continue
        n = num(ev.op2("**", 2, m.z))
        want = (m.z, ev.fun("floor", n * (m.lon + num(180)) / num(360)),
                ev.fun("floor", n * (num(1) - ev.fun("log", ev.fun("tan", PI / num(4) + m.lat * PI / num(360))) / PI) / num(2)))
        for i, (k, w) in enumerate(zip(("z", "x", "y"), want)):
            a = arg(v, k, i)
            try:
                g = ev.ev(a)
            except (Unknown, NotImplementedError) as e:
                rep.undec("tile_from_point: %s" % str(e)[:80])
                continue
            nm = {"z": "zoom", "x": "column", "y": "row"}[k] + " of a point's tile"
            if isnum(g) and i:
                g = inner(ev, m, g)
                w = inner(ev, m, w)
                if g is None or w is None:
                    rep.undec("%s: rounding" % nm)
                    continue
                if isinstance(g, str):
                    rep.bad("formula", nm, "%s is %s" % (nm, g), q.where)
                    continue
            compare(rep, m, nm, g, w, q.where)


def inner(ev, m, x):
    """the number that is rounded down"""
    ats = num(x).atoms()
    if len(ats) == 1:
        e = m.funs.entry(next(iter(ats)))
        if e is not None and num(x).same(ratom(next(iter(ats)))):
            if e[0] in ("floor", "trunc"):
                return e[1][0]
            if e[0] in ("round", "ceil"):
                return "rounded to the nearest or next number, not down"
    return None


def equality(p, rep, mod, c):
    f = method(c, "__eq__")
    if f is None:
        rep.bad("equality", "Tile", "tiles are compared by identity", c.where if hasattr(c, "where") else None)
        return
    it, paths = run(p, rep, f, c)
    seen = set()
    other = f.pos[1] if len(f.pos) > 1 else "other"
    opaque = False
    for q in paths:
        ts = [it.reify(q.value, q.state)] + [t for t, _ in q.conds]
        for t in ts:
            for x in walk(t):
                if x.op == "attr" and x.args[0].op == "param":
                    seen.add((x.args[0].args[0], x.args[1]))
                elif x.op in ("mcall",) or x.op == "call" and extname(x) is None:
                    opaque = True
                elif x.op == "call" and extname(x).split(".")[-1] in ("vars", "getattr"):
                    opaque = True
                elif x.op == "attr" and x.args[1] == "__dict__":
                    opaque = True
    if opaque:
        rep.undec("Tile.__eq__")
        return
    for k in ("z", "x", "y"):
        if not {(f.pos[0], k), (other, k)} <= seen:
            rep.bad("equality", "Tile", "tiles that differ in %s are equal" % k, paths[0].where if paths else None)
        else:
            rep.ok("Tile.__eq__ compares %s" % k)
