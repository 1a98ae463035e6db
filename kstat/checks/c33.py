"""C33: selections over collections agree with the tests on single members."""
from itertools import product

from ..finite import Eval, Unknown, Fault, canon
from ..iospec import extname, cargs
from ..interp import Interp
from ..loader import Program
from ..report import Report
from ..results import ResultPolicy
from ..terms import T, mk, walk, is_const, cval, fmt

TECHNIQUE = "value terms and path conditions of the selection methods resolved over small domains, with the tests on members left open"
RULE = ("The value terms of selections (vertices in a box, radius or polygon, parts in or touching a geometry), of their predicates "
        "(overlap of boxes, crossing of the date line, any vertex in a polygon) and of the union of bounding boxes are resolved at "
        "every instance of small domains in which the answer of the test on a member is an arbitrary table; the result must be the "
        "members, in order, for which the test holds.")
MOD = "karta.vector.geometry"


class P33(ResultPolicy):
    keep = ("contains", "intersects", "bbox", "distance", "search_within", "search_overlapping", "distances_to", "_index", "_merge_longitude_ranges")

    def inline(self, i, f, recv, depth):
        if f.name in self.keep:
            return False
        return ResultPolicy.inline(self, i, f, recv, depth)


class Pt(object):
    def __init__(self, i, x=0.0, y=0.0, box=None):
        self.i, self.x, self.y, self.box = i, x, y, box

    def __repr__(self):
        return "member %d" % self.i if self.box is None else "member %d %s" % (self.i, self.box)


class Obj(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


SELF = mk("param", "self")


class E33(Eval):
    """tests: name of a method -> function of (receiver, arguments)"""
    def __init__(self, env, tests, attrs):
        Eval.__init__(self, env, self.resolve)
        self.tests, self.attrs = tests, attrs

    def resolve(self, ev, t):
        op = t.op
        if op == "mcall" and t.args[1] in self.tests:
            recv = ev.ev(t.args[0]) if t.args[0] in ev.env or t.args[0].op in ("elem", "item", "new", "call") else t.args[0]
            pos, kw = ev.args(t)
            return self.tests[t.args[1]](recv, pos + list(kw.values()))
        if op == "call" and t.args[0].op == "func":
            n = str(t.args[0].args[0]).split(".")[-1]
            if n in self.tests:
                vals = [ev.ev(a) for _, a in t.args[1] if isinstance(a, T)]
                return self.tests[n](vals[0] if vals else None, vals[1:])
        if op == "attr":
            if t.args[1] in self.attrs and (t.args[0] is SELF or t.args[1] in ("_vertices",)):
                return self.attrs[t.args[1]]
            b = ev.ev(t.args[0])
            if isinstance(b, (Pt, Obj)) and hasattr(b, str(t.args[1])):
                return getattr(b, t.args[1])
        if op == "item":
            b = ev.ev(t.args[0])
            if isinstance(b, Pt):
                return Obj(i=b.i, kinds=("Point",))
        if op == "new":
            d = dict(t.args[1])
            for k in ("inputs", "vertices", "items", "_vertices", 0):
                if k in d:
                    return list(ev.ev(d[k]))
        if op == "hasattr":
            n = t.args[1]
            n = cval(n) if isinstance(n, T) else n
            if t.args[0] is SELF:
                return n in self.attrs
        if op == "isinstance":
            if t.args[0] in ev.env or t.args[0].op == "attr":
                v = ev.env.get(t.args[0])
                if isinstance(v, Obj):
                    return str(t.args[1].args[-1]).split(".")[-1] in v.kinds
        raise NotImplementedError

    def builtin(self, t, n):
        if n in ("any", "all", "sum", "min", "max", "sorted", "list", "tuple", "set"):
            a = [x for _, x in t.args[1]]
            if len(a) == 1:
                v = self.ev(a[0])
                if isinstance(v, (list, tuple, range)):
                    try:
                        return {"any": any, "all": all, "sum": sum, "min": min, "max": max, "sorted": sorted, "list": list,
                                "tuple": tuple, "set": lambda x: sorted(set(x))}[n](v)
                    except (ValueError, TypeError) as e:
                        raise Fault(str(e))
        if n in ("numpy.array", "numpy.asarray"):
            a = [x for _, x in t.args[1]]
            v = self.ev(a[0])
            if isinstance(v, list):
                return v
        if n == "abs":
            return abs(self.ev([x for _, x in t.args[1]][0]))
        return Eval.builtin(self, t, n)


def spanned(it, depth):
    """the loops whose elements are bound by an iteration"""
    it = canon(it)
    out = {(it, depth)}
    if extname(it) == "zip":
        for a in cargs(it):
            out |= spanned(a, depth)
    if it.op == "list":
        for e in it.args:
            if isinstance(e, T) and e.op == "each":
                out |= spanned(e.args[0], depth) | spanned(e.args[0], e.args[1])
    return out


def open_loops(t):
    """loops whose element occurs outside of a list over them"""
    out = []

    def go(x, bound):
        if isinstance(x, tuple):
            for y in x:
                go(y, bound)
            return
        if not isinstance(x, T):
            return
        if x.op in ("elem", "idx"):
            k = (canon(x.args[0]), x.args[1])
            if k not in bound and k not in out:
                out.append(k)
            go(x.args[0], bound)
            return
        if x.op in ("each", "fold"):
            go(x.args[0], bound)
            b = bound | spanned(x.args[0], x.args[1])
            for y in x.args[2:]:
                go(y, b)
            return
        for y in x.args:
            go(y, bound)
    go(t, frozenset())
    return sorted(out, key=lambda k: k[1])


def outcome(it, paths, ev):
    """the value of the function at an instance: the first path whose conditions hold"""
    hits = []
    late = None
    for q in paths:
        conds = tuple((c, b) for c, b in q.conds if c.op != "exc")
        loops = open_loops(tuple(c for c, _ in conds) + ((q.value,) if isinstance(q.value, T) else ()))
        try:
            if q.kind == "raise":
                if not loops and ev.holds(conds):
                    return ("raise",)
                continue
            v = it.reify(q.value, q.state) if isinstance(q.value, T) else None
            if not loops:
                if ev.holds(conds):
                    hits.append((0, ev.ev(v)))
            else:
                k, d = loops[0]
                if len(loops) > 1:
                    raise Unknown("nested loops")
                for _ in ev.iterate(k, d):
                    if ev.holds(conds):
                        hits.append((1, ev.ev(v)))
                        break
                ev.unbind(k, d)
        except (Unknown, Fault) as e:
            late = e
    if not hits:
        raise late or Unknown("no path")
    if late is not None:
        raise late
    early = [v for k, v in hits if k]
    vals = early or [v for _, v in hits]
    if any(v != vals[0] for v in vals[1:]):
        raise Unknown("several values")
    return ("return", vals[0])


def decide(rep, f, it, paths, name, instances):
    """instances yields (Eval, expected or a predicate on the result, description)"""
    n = bad = unk = 0
    why = None
    for ev, want, text in instances:
        try:
            r = outcome(it, paths, ev)
        except (Unknown, Fault, NotImplementedError) as e:
            unk += 1
            why = e
            continue
        n += 1
        ok = want(r[1] if r[0] == "return" else r) if callable(want) else r == ("return", want)
        if not ok and not bad:
            bad += 1
            rep.bad("selection", f.qual, "for %s the result is %s%s" % (text, r[1] if len(r) > 1 else r, "" if callable(want) else ", not %s" % (want,)),
                    f.where)
    if not bad:
        if n and not unk:
            rep.ok("%s: %s (%d instances)" % (f.name, name, n), f.where)
        else:
            rep.undec("%s: %s (%d instances not resolved: %s)" % (f.name, name, unk, str(why)[:120]))


def method(p, mod, cls, name):
    c = mod.classes.get(cls)
    f = c and c.methods.get(name)
    return f, c


def run(p, rep, f, c):
    rep.fn(f.qual)
    it = Interp(p, P33())
    return it, [q for q in it.run(f, c) if q.kind in ("return", "raise")]


def idx_of(v):
    return [x.i for x in v] if isinstance(v, (list, tuple)) and all(isinstance(x, Pt) for x in v) else None


def members(want):
    return lambda v: idx_of(v) == want if idx_of(v) is not None else v == want


CRS = Obj(kinds=("CartesianCRS",))


def selections(p, rep, mod):
    """vertices of a multipoint in a box, within a radius, in a polygon"""
    pts = [Pt(k, float(x), float(y)) for k, (x, y) in enumerate(product((0, 1, 2, 3), (0, 5, 10)))]
    for name in ("within_bbox", "within_radius", "within_polygon", "any_within_poly"):
        f, c = method(p, mod, "Multipoint", name)
        if f is None:
            f, _ = method(p, mod, "MultiVertexMixin", name)
        if f is None:
            rep.undec("%s not found" % name)
            continue
        it, paths = run(p, rep, f, c)
        decide(rep, f, it, paths, name, list(instances(f, name, pts)))


def instances(f, name, pts):
    a = mk("param", f.pos[0] if f.pos[0] != "self" else f.pos[1])
    second = [mk("param", x) for x in f.pos if x != "self"]
    if name == "within_bbox":
        for box in ((0.5, 2.0, 2.5, 7.0), (-1.0, -1.0, 9.0, 4.0), (0.5, -1.0, 1.5, 11.0), (7.0, 7.0, 8.0, 8.0)):
            want = [q.i for q in pts if box[0] < q.x < box[2] and box[1] < q.y < box[3]]
            for index in (False, True):
                attrs = {"_vertices": pts}
                if index:
                    attrs["quadtree"] = Obj(kinds=())
                ev = E33({SELF: pts, a: box}, {"search_within": lambda r, x, w=want: list(w)}, attrs)
                yield ev, members(want), "the box %s" % (box,)
    elif name in ("within_polygon", "any_within_poly"):
        few = pts[:4]
        for tab in product((False, True), repeat=4):
            want = [q.i for q in few if tab[q.i]]
            for index in ((False, True) if name == "within_polygon" else (False,)):
                attrs = {"_vertices": few, "crs": CRS}
                if index:
                    attrs["quadtree"] = Obj(kinds=())
                poly = Obj(kinds=("Polygon",), crs=CRS)
                tests = {"contains": lambda r, x, tab=tab: tab[x[0].i], "bbox": lambda r, x: (0, 0, 1, 1),
                         "search_within": lambda r, x: [3, 1, 0, 2]}
                ev = E33({SELF: few, a: poly, mk("attr", SELF, "crs"): CRS}, tests, attrs)
                yield ev, (bool(want) if name == "any_within_poly" else members(want)), "vertices that are in the polygon: %s" % (want,)
    elif name == "within_radius":
        few = pts[:4]
        for dist in ((1.0, 5.0, 2.0, 9.0), (3.0, 3.0, 3.0, 0.0), (9.0, 9.0, 9.0, 9.0)):
            want = [q.i for q in few if dist[q.i] < 3.0]
            for index in (False, True):
                attrs = {"_vertices": few, "crs": CRS}
                if index:
                    attrs["quadtree"] = Obj(kinds=())
                tests = {"distance": lambda r, x, d=dist: d[x[0].i if isinstance(x[0], Pt) else r.i],
                         "distances_to": lambda r, x, d=dist: list(d), "search_within": lambda r, x: [3, 1, 0, 2]}
                ev = E33({SELF: few, second[0]: Obj(kinds=("Point",), crs=CRS, x=0.0, y=0.0), second[1]: 3.0,
                          mk("attr", SELF, "crs"): CRS}, tests, attrs)
                yield ev, members(want), "distances %s and radius 3" % (dist,)


def boxes(p, rep, mod):
    B = [(0.0, 0.0, 2.0, 2.0), (1.0, 1.0, 3.0, 3.0), (2.0, 0.0, 4.0, 2.0), (0.0, 2.0, 2.0, 4.0), (3.0, 0.0, 4.0, 2.0), (0.0, 3.0, 2.0, 4.0),
         (0.5, 0.5, 1.0, 1.0), (2.0, 2.0, 3.0, 3.0), (5.0, 5.0, 6.0, 6.0), (-4.0, -9.0, 9.0, 9.0), (1.0, 1.0, 1.0, 1.0), (0.0, 1.0, 5.0, 1.0)]

    def over(a, b):
        return a[0] <= b[2] and b[0] <= a[2] and a[1] <= b[3] and b[1] <= a[3]
    f, c = method(p, mod, "MultiVertexMixin", "_bbox_overlap")
    if f is not None:
        it, paths = run(p, rep, f, c)
        o = mk("param", [x for x in f.pos if x != "self"][0])
        ins = []
        for a, b in product(B, B):
            other = Obj(kinds=(), box=b)
            ev = E33({SELF: Obj(kinds=(), box=a), o: other}, {"bbox": lambda r, x: r.box}, {"crs": CRS})
            ins.append((ev, over(a, b), "the boxes %s and %s" % (a, b)))
        decide(rep, f, it, paths, "boxes overlap", ins)


def ranges(p, rep, mod):
    """the narrowest range of longitudes that contains all"""
    f = mod.funcs.get("_merge_longitude_ranges")
    if f is None:
        rep.undec("union of ranges of longitude not found")
        return
    it = Interp(p, ResultPolicy())
    rep.fn(f.qual)
    paths = [q for q in it.run(f, None) if q.kind in ("return", "raise")]
    R = [(0.0, 10.0), (170.0, -170.0), (-175.0, -160.0), (20.0, 100.0), (150.0, 175.0), (-100.0, -20.0), (90.0, -90.0), (-120.0, 120.0)]
    ins = []

    def width(w, e):
        return e - w if e >= w else e - w + 360.0

    def inside(w, e, r):
        return (r[0] - w) % 360.0 + width(*r) <= width(w, e) + 1e-9

    def check(rs):
        # ends of ranges are longitudes from -180 to 180
        best = min(min(max((r[0] - w) % 360.0 + width(*r) for r in rs), 360.0) for w, _ in rs)

        def ok(v):
            if not isinstance(v, tuple) or len(v) != 2 or not all(-180.0 <= x <= 180.0 for x in v):
                return False
            w = width(*v)
            return all(inside(v[0], v[1], r) or w >= 360.0 for r in rs) and abs(min(w, 360.0) - best) < 1e-9
        return ok
    for n in (1, 2, 3):
        for rs in product(R, repeat=n):
            if n == 3 and not rs[0] < rs[1] < rs[2]:
                continue
            ins.append((E33({mk("param", f.pos[0]): list(rs)}, {}, {}), check(rs), "the ranges %s" % (rs,)))
    decide(rep, f, it, paths, "union of ranges of longitude", ins)


def dateline(p, rep, mod):
    f, c = method(p, mod, "ConnectedMultiVertexMixin", "crosses_dateline")
    if f is None:
        rep.undec("crosses_dateline not found")
        return
    it, paths = run(p, rep, f, mod.classes.get("Line") or c)
    G = Obj(kinds=("GeographicalCRS",))
    ins = []
    for xs in [(a, b) for a in (-179.0, -91.0, -10.0, 10.0, 100.0, 178.0) for b in (-179.0, -91.0, -10.0, 10.0, 100.0, 178.0)] + \
            [(170.0, 179.0, -179.0), (-10.0, 0.5, 10.0), (-179.0, -100.0, 10.0, 100.0)]:
        want = any(x * y < 0 and abs(x - y) > 180 for x, y in zip(xs, xs[1:]))
        pts = [Pt(k, x, 0.0) for k, x in enumerate(xs)]
        ev = E33({SELF: pts, mk("attr", SELF, "crs"): G}, {}, {"_vertices": pts, "crs": G})
        ins.append((ev, lambda v, w=want: bool(v) == w, "longitudes %s" % (xs,)))
    decide(rep, f, it, paths, "segments across the date line", ins)


def parts(p, rep, mod):
    """parts within or touching a geometry"""
    c = mod.classes.get("MultiVertexMultipartMixin")
    if c is None:
        rep.undec("multipart geometries not found")
        return
    few = [Pt(k, box=b) for k, b in enumerate(((0.0, 0.0, 2.0, 1.0), (1.0, -3.0, 5.0, 0.5), (-2.0, 2.0, 1.0, 4.0)))]
    f = c.methods.get("bbox")
    if f is not None:
        it, paths = run(p, rep, f, c)
        ins = []
        for sel in ((0,), (0, 1), (1, 2), (0, 1, 2), (2, 0)):
            ps = [few[k] for k in sel]
            bs = [q.box for q in ps]
            want = (min(b[0] for b in bs), min(b[1] for b in bs), max(b[2] for b in bs), max(b[3] for b in bs))
            ins.append((E33({SELF: ps, mk("param", "crs"): None}, {"bbox": lambda r, x: r.box}, {}), want, "parts with boxes %s" % (bs,)))
        for bs in (((170.0, 0.0, -170.0, 1.0), (160.0, 2.0, 175.0, 3.0)), ((0.0, -1.0, 5.0, 1.0), (179.0, -2.0, -179.0, 0.0))):
            ps = [Pt(k, box=b) for k, b in enumerate(bs)]
            want = (-12.5, min(b[1] for b in bs), 34.5, max(b[3] for b in bs))
            seen = [(b[0], b[2]) for b in bs]

            def union(r, x, seen=seen):
                got = r if isinstance(r, list) else x[0]
                return (-12.5, 34.5) if sorted(got) == sorted(seen) else (0.0, 0.0)
            ins.append((E33({SELF: ps, mk("param", "crs"): None}, {"bbox": lambda r, x: r.box, "_merge_longitude_ranges": union}, {}), want,
                        "parts with boxes %s, whose union of longitudes is (-12.5, 34.5)" % (bs,)))
        decide(rep, f, it, paths, "bounding box of the parts", ins)
    cm = mod.classes.get("Multiline")
    for name, kind, rule in (("touching", "Line", lambda c, i: i), ("touching", "Polygon", lambda c, i: c or i), ("within", "Polygon", lambda c, i: c and not i)):
        f = c.methods.get(name)
        if f is None or cm is None:
            rep.undec("%s not found" % name)
            continue
        it, paths = run(p, rep, f, cm)
        ins = []
        other = Obj(kinds=("OtherCRS",))
        for cs in product((False, True), repeat=3):
            for xs in product((False, True), repeat=3):
                for gc in (CRS, other):
                    want = [k for k in range(3) if rule(cs[k], xs[k])]
                    geom = Obj(kinds=(kind,), crs=gc)
                    tests = {"contains": lambda r, x, cs=cs: cs[x[0].i], "intersects": lambda r, x, xs=xs: xs[[y for y in [r] + x if isinstance(y, Pt)][0].i],
                             "search_overlapping": lambda r, x: [0, 1, 2], "bbox": lambda r, x: (0, 0, 1, 1), "_index": lambda r, x: Obj(kinds=())}
                    ev = E33({SELF: few, mk("param", [y for y in f.pos if y != "self"][0]): geom, mk("attr", SELF, "crs"): CRS}, tests, {"crs": CRS})
                    ins.append((ev, members(want), "members of which %s have their first vertex in the %s and %s meet its boundary" % (
                        [k for k in range(3) if cs[k]], kind.lower(), [k for k in range(3) if xs[k]])))
        decide(rep, f, it, paths, "%s a %s" % (name, kind), ins)


def check():
    rep = Report("C33", RULE)
    p = Program()
    mod = p.modules.get(MOD)
    if mod is None:
        rep.undec("module not found")
        return rep
    for part in (selections, boxes, ranges, dateline, parts):
        try:
            part(p, rep, mod)
        except Exception as e:
            rep.undec("%s: %s %s" % (part.__name__, type(e).__name__, e))
    return rep
