"""C14: geometry types map consistently to and from every interchange format."""
import ast

from ..interp import Interp, Policy
from ..cover import coverage
from ..iospec import extname, cargs
from ..loader import Program
from ..report import Report
from ..terms import T, mk, const, is_const, cval, walk, fmt
from .c15 import strip_order

TECHNIQUE = "path-wise type tables extracted from every converter, and geometry trees built from the event sequence of the writers"
RULE = ("Every converter is read as a table from the tested type name to the constructed type: geomdict, __geo_interface__, "
        "GeoJSON output and input, the geo interface reader, OGR's reader, writer and layer types. Each table has the six "
        "geometry types, maps each to its own counterpart and refuses others; coordinates come from the geometry's own "
        "vertices in order at the format's nesting depth, with their third coordinate; properties stay properties.")
GEOM, READ, JSON, SHP = "karta.vector.geometry", "karta.vector.read", "karta.vector._geojson", "karta.vector._shp"
KINDS = {"Point": "Point", "Line": "LineString", "Polygon": "Polygon", "Multipoint": "MultiPoint",
         "Multiline": "MultiLineString", "Multipolygon": "MultiPolygon"}
BACK = {v: k for k, v in KINDS.items()}
CODES = {"Point": [1], "LineString": [2], "Polygon": [3, 101], "MultiPoint": [4, 1], "MultiLineString": [5, 2],
         "MultiPolygon": [6, 3, 101]}
WKB = {"wkbPoint": 1, "wkbLineString": 2, "wkbPolygon": 3, "wkbMultiPoint": 4, "wkbMultiLineString": 5, "wkbMultiPolygon": 6,
       "wkbLinearRing": 101}
DEPTH = {"Point": 0, "LineString": 1, "Polygon": 2, "MultiPoint": 1, "MultiLineString": 2, "MultiPolygon": 3}
SUFFIX = ("", "25D", "M", "ZM")
NAMES = set(KINDS) | set(KINDS.values())


class Flow(Policy):
    max_depth = 8
    max_states = 8000

    def __init__(self, mods, opaque=()):
        self.mods, self.opaque = mods, opaque

    def inline(self, i, f, recv, d):
        return f.module.name in self.mods and f.name not in self.opaque and f.name != "__init__"


def literals(conds, is_subject):
    """strings the tested subject equals (None: unknown) and strings it differs from on a path"""
    eq, ne = None, set()
    for c, b in conds:
        u, v = c, b
        while u.op == "not":
            u, v = u.args[0], not v
        names = None
        if u.op == "cmp" and u.args[0] == "==":
            xs = [x for x in u.args[1:] if is_const(x) and isinstance(cval(x), str)]
            if len(xs) == 1 and any(is_subject(x) for x in u.args[1:]):
                names = {cval(xs[0])}
        elif u.op == "in" and is_subject(u.args[0]):
            g = u.args[1]
            if g.op in ("tuple", "list", "set") and all(is_const(x) for x in g.args):
                names = {cval(x) for x in g.args}
            elif is_const(g) and isinstance(cval(g), (tuple, list)):
                names = set(cval(g))
        elif u.op == "isinstance" and is_subject(u.args[0]):
            g = u.args[1]
            gs = g.args if g.op == "tuple" else (g,)
            names = {fmt(x).split(".")[-1].split(", ")[-1].rstrip(">") for x in gs if isinstance(x, T)}
        if names is None:
            continue
        if v:
            eq = names if eq is None else eq & names
        else:
            ne |= names
    return eq, ne


def newclass(t):
    if t.op == "new":
        return t.args[0].args[0].split(".")[-1], dict(t.args[1])
    return None, {}


def reversal(t):
    """a vertex list or coordinate that is reordered or cut"""
    for x in walk(t, set()):
        if x.op == "item" and x.args[1].op == "slice":
            s = [cval(y) if is_const(y) else "?" for y in x.args[1].args]
            if s != [None, None, None] and s != [1, None, None] and s != [None, -1, None]:
                return fmt(x)[:60]
        if extname(x) in ("reversed", "sorted"):
            return fmt(x)[:60]
    return None


# ---------------------------------------------------------------- geo interface of geometries
def interfaces(rep, p):
    m = p.modules[GEOM]
    tags = {}
    for cname, want in sorted(KINDS.items()):
        cls = m.classes.get(cname)
        if cls is None:
            rep.undec("no class %s" % cname)
            continue
        tags[cname] = geotype(rep, p, cls)
        for name in ("geomdict", "__geo_interface__"):
            f = cls.lookup(name)
            if f is None:
                rep.bad("missing", "%s.%s" % (cname, name), "%s has no %s" % (cname, name), m.rel)
                continue
            rep.fn("%s.%s" % (cname, name))
            where = "%s (%s)" % (f.where, f.qual)
            it = Interp(p, Flow((GEOM, "karta.vector.utilities"), ("bbox", "vertices_ring", "_as_nested_lists")))
            for q in it.run(f, cls):
                if q.kind != "return":
                    continue
                v = it.reify(q.value, q.state)
                d = asdict(v)
                if d is None:
                    rep.undec("%s.%s: result" % (cname, name))
                    continue
                if name == "geomdict":
                    gdict(rep, d, want, cname, where)
                else:
                    feature(rep, d, want, cname, where)
    return tags


def geotype(rep, p, cls):
    f = cls.lookup("__init__")
    got = set()
    if f is not None:
        it = Interp(p, Flow((GEOM,)))
        try:
            for q in it.run(f, cls):
                if q.kind == "raise":
                    continue
                last = [e.extra[1] for e in q.events if e.kind == "setattr" and e.extra[0] == "_geotype" and
                        e.term is mk("param", "self")]
                if last and is_const(last[-1]):
                    got.add(cval(last[-1]))
        except Exception:
            got = set()
    for st in cls.node.body:
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "_geotype" for t in st.targets) and \
                isinstance(st.value, ast.Constant):
            got.add(st.value.value)
    got.discard(None)
    where = cls.module.rel
    if len(got) == 1:
        return next(iter(got))
    if not got:
        # by the source: self._geotype = "X" in the class's own constructor
        for n in ast.walk(cls.node):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == "_geotype" and \
                    isinstance(n.value, ast.Constant):
                got.add(n.value.value)
        if len(got) == 1:
            return next(iter(got))
    rep.undec("%s: type tag" % cls.name)
    return None


def asdict(v):
    upd = {}
    while v.op == "upd":
        if is_const(v.args[1]):
            upd.setdefault(cval(v.args[1]), v.args[2])
        v = v.args[0]
    if v.op != "dict" or any(x.op != "kv" or not is_const(x.args[0]) for x in v.args):
        return None
    d = {cval(x.args[0]): x.args[1] for x in v.args}
    d.update(upd)
    return d


def gdict(rep, d, want, cname, where):
    t = d.get("type")
    lab = "%s geo interface" % cname
    if t is None or not is_const(t):
        rep.undec(lab + ": type")
    elif cval(t) != want:
        rep.bad("type", lab, "the type of %s is %r instead of %r" % (cname, cval(t), want), where)
    else:
        rep.ok("%s: type %s" % (lab, want), where)
    c = d.get("coordinates")
    if c is None:
        rep.bad("coordinates", lab, "there are no coordinates", where)
        return
    own = any(x.op == "attr" and x.args[0] is mk("param", "self") and x.args[1] in ("_vertex", "_vertices", "vertices_ring", "vertices")
              or x.op == "mcall" and x.args[0] is mk("param", "self") and x.args[1] in ("vertex", "vertices", "get_vertex")
              for x in walk(c, set()))
    r = reversal(c)
    if r:
        rep.bad("coordinates", lab, "the coordinates are reordered or cut: %s" % r, where)
    elif own:
        rep.ok("%s: coordinates are the geometry's" % lab, where)
    else:
        rep.undec(lab + ": coordinates")
    b = d.get("bbox")
    if b is not None and b.op in ("tuple", "list") and len(b.args) == 4:
        idx = []
        for x in b.args:
            if x.op == "item" and is_const(x.args[1]) and any(y.op == "mcall" and y.args[1] in ("bbox", "extent") for y in walk(x, set())):
                y = [y for y in walk(x, set()) if y.op == "mcall" and y.args[1] in ("bbox", "extent")][0]
                idx.append((y.args[1], cval(x.args[1])))
        if len(idx) == 4 and idx not in ([("bbox", i) for i in range(4)], [("extent", i) for i in (0, 2, 1, 3)]):
            rep.bad("coordinates", lab + " bbox", "the bounding box is not (xmin, ymin, xmax, ymax)", where)


def feature(rep, d, want, cname, where):
    lab = "%s feature" % cname
    t = d.get("type")
    if t is None or not is_const(t):
        rep.undec(lab + ": type")
    elif cval(t) != "Feature":
        rep.bad("type", lab, "the type is %r instead of 'Feature'" % cval(t), where)
    else:
        rep.ok(lab + ": type Feature", where)
    g = d.get("geometry")
    if g is None:
        rep.bad("type", lab, "there is no geometry", where)
    else:
        gd = asdict(g)
        if gd is not None and is_const(gd.get("type", mk("param", "?"))):
            if cval(gd["type"]) != want:
                rep.bad("type", lab, "the geometry is a %s" % cval(gd["type"]), where)
            else:
                rep.ok(lab + ": geometry %s" % want, where)
        elif g.op == "attr" and g.args[1] == "geomdict":
            rep.ok(lab + ": geometry %s" % want, where)
        else:
            rep.undec(lab + ": geometry")
    pr = d.get("properties")
    if pr is None:
        rep.bad("properties", lab, "there are no properties", where)
    elif any(x is mk("attr", mk("param", "self"), "properties") for x in walk(pr, set())):
        rep.ok(lab + ": properties are the geometry's", where)
    else:
        rep.bad("properties", lab, "the properties are lost", where)
    if pr is not None:
        crs = [x for x in walk(pr, set()) if x.op == "mcall" and x.args[1] == "get_proj4"]
        if crs and all(x.args[0] is mk("attr", mk("param", "self"), "crs") for x in crs):
            rep.ok(lab + ": coordinate system", where)
        elif crs:
            rep.undec(lab + ": coordinate system")
        elif not any(is_const(x) and cval(x) == "_karta_proj4" for x in walk(pr, set())):
            rep.bad("properties", lab, "the coordinate system, which the shapefile writer reads, is lost", where)


# ---------------------------------------------------------------- tables by type name
class Table(object):
    """what a converter does for every type name"""
    def __init__(self, rep, name, where):
        self.rep, self.name, self.where = rep, name, where
        self.seen = {}
        self.other = None

    def done(self, names, must_refuse=True):
        for n in sorted(names):
            if n not in self.seen:
                self.rep.bad("type", "%s %s" % (self.name, n), "%s does not handle %s" % (self.name, n), self.where)
        if must_refuse and self.other == "return":
            self.rep.bad("type", "%s other" % self.name, "unknown types are not refused", self.where)
        elif must_refuse and self.other == "raise":
            self.rep.ok("%s: other types are refused" % self.name, self.where)


def coordinates_of(rep, t, is_src, lab, where):
    """value made of the whole source in order"""
    if t is None:
        rep.undec(lab + ": coordinates")
        return
    r = reversal(t)
    if r:
        rep.bad("coordinates", lab, "coordinates are reordered or cut: %s" % r, where)
    elif any(is_src(x) for x in walk(t, set())):
        rep.ok(lab + ": coordinates are kept in order", where)
    else:
        rep.undec(lab + ": coordinates")


def coordarg(args):
    for n in ("coords", "vertices", "inputs", "vertex", 0):
        if n in args:
            return args[n]
    return None


def from_shape(rep, p):
    f = p.modules[READ].funcs.get("_from_shape")
    if f is None:
        rep.undec("no _from_shape")
        return
    rep.fn("_from_shape")
    where = "%s (%s)" % (f.where, f.qual)
    src = mk("param", f.pos[0])
    is_type = lambda t: t is mk("item", src, const("type")) or t.op == "mcall" and t.args[0] is src and t.args[1] == "get" and \
        is_const(t.args[2][0][1]) and cval(t.args[2][0][1]) == "type"
    is_coord = lambda t: t is mk("item", src, const("coordinates")) or t.op == "mcall" and t.args[0] is src and \
        t.args[1] == "get" and is_const(t.args[2][0][1]) and cval(t.args[2][0][1]) == "coordinates"
    it = Interp(p, Flow((READ,)))
    tab = Table(rep, "_from_shape", where)
    opened = set()
    for q in it.run(f):
        eq, ne = literals(q.conds, is_type)
        if eq is None and set(BACK) <= ne:
            if tab.other != "return":
                tab.other = q.kind
            continue
        if q.kind != "return" or not eq:
            continue
        v = it.reify(q.value, q.state)
        for n in eq:
            if n == "Feature":
                a = dict(v.args[1]) if v.op == "call" else {}
                ok = any(x is mk("item", src, const("geometry")) for x in walk(v, set()))
                pr = any(x is mk("item", src, const("properties")) for x in walk(v, set()))
                tab.seen[n] = True
                if ok and pr:
                    rep.ok("_from_shape: features give their geometry with their properties", where)
                elif v.op == "call" and not pr:
                    rep.bad("properties", "_from_shape Feature", "the properties of features are lost", where)
                else:
                    rep.undec("_from_shape: features")
                continue
            if is_const(v) and cval(v) is None:
                if any(c.op == "isnone" and b for c, b in q.conds):
                    continue
                rep.bad("type", "_from_shape %s" % n, "%s gives nothing" % n, where)
                tab.seen[n] = True
                continue
            cls, args = newclass(v)
            if cls is None:
                rep.undec("_from_shape: %s" % n)
                tab.seen[n] = True
                continue
            tab.seen[n] = True
            built(rep, "_from_shape", n, cls, args, is_coord, mk("param", f.pos[1]) if len(f.pos) > 1 else None, where)
            if n == "Polygon" and coordarg(args) is not None:
                opened.add(any(x.op == "item" and x.args[1].op == "slice" for x in walk(coordarg(args), set())))
    tab.done(set(BACK) | {"Feature"})
    if opened == {False}:
        rep.bad("coordinates", "_from_shape Polygon closing", "the repeated last vertex of rings is kept", where)


def built(rep, name, n, cls, args, is_coord, props, where):
    lab = "%s %s" % (name, n)
    if n not in BACK:
        return
    if cls != BACK[n]:
        rep.bad("type", lab, "%s becomes a %s" % (n, cls), where)
    else:
        rep.ok("%s becomes %s" % (lab, cls), where)
    coordinates_of(rep, coordarg(args), is_coord, lab, where)
    if cls == "Polygon":
        src = {x for a in args.values() if isinstance(a, T) for x in walk(a, set()) if is_coord(x)}
        for S in src:
            v = coverage(args["subs"], S, 1) if isinstance(args.get("subs"), T) else "none"
            if v == "full":
                rep.ok("%s: the rings after the first are its holes" % lab, where)
            elif v == "unknown":
                rep.undec("%s: holes" % lab)
            else:
                rep.bad("coordinates", lab + " holes", "not all rings after the first become holes", where)
    if props is not None:
        pr = args.get("properties")
        if pr is None:
            rep.bad("properties", lab, "the properties are lost", where)
        elif any(x is props for x in walk(pr, set())):
            rep.ok("%s: properties are kept" % lab, where)
        else:
            rep.undec("%s: properties" % lab)


# ---------------------------------------------------------------- GeoJSON
def geojson_out(rep, p, tags):
    cls = p.modules[JSON].classes.get("GeoJSONOutMixin")
    f = cls.lookup("_as_named_tuple") if cls else None
    if f is None:
        rep.undec("no _as_named_tuple")
        return
    rep.fn("_as_named_tuple")
    where = "%s (%s)" % (f.where, f.qual)
    src = mk("param", [x for x in f.pos if x not in ("self", "cls")][0])
    is_type = lambda t: t is mk("attr", src, "_geotype") or t.op == "attr" and t.args[1] == "__name__" and src in walk(t, set())
    is_coord = lambda t: t.op == "mcall" and t.args[0] is src and t.args[1] in ("vertices", "vertex", "get_vertex") or \
        t.op == "attr" and t.args[0] is src and t.args[1] in ("vertices_ring", "_vertices", "_vertex")
    it = Interp(p, Flow((JSON,), ("_as_nested_lists", "crs_from_karta", "crs_from_urn")))
    tab = Table(rep, "GeoJSON output", where)
    byname = {v: k for k, v in tags.items() if v}
    data = {}
    for q in it.run(f, cls):
        eq, ne = literals(q.conds, is_type)
        if eq is None and set(byname) <= ne:
            if tab.other != "return":
                tab.other = q.kind
            continue
        if q.kind != "return" or not eq:
            continue
        v = it.reify(q.value, q.state)
        nm = last(v)
        for n in eq:
            if n not in byname:
                continue
            tab.seen[n] = True
            lab = "GeoJSON output %s" % byname[n]
            if nm != "Feature":
                rep.undec(lab)
                continue
            a = cargs(v)
            g = a[0]
            gn = last(g)
            if gn is None:
                rep.undec(lab + ": geometry")
                continue
            if gn != KINDS[byname[n]]:
                rep.bad("type", lab, "%s is written as %s" % (byname[n], gn), where)
            else:
                rep.ok("%s is written as %s" % (lab, gn), where)
            coordinates_of(rep, cargs(g)[0] if cargs(g) else None, is_coord, lab, where)
            pr = a[1] if len(a) > 1 else None
            if pr is None:
                rep.undec(lab + ": properties")
            else:
                if any(x is mk("attr", src, "properties") for x in walk(pr, set())):
                    rep.ok(lab + ": properties are written", where)
                else:
                    rep.bad("properties", lab, "the properties are not written", where)
                has = any(x.op == "attr" and x.args[0] is src and x.args[1] in ("data", "d") for x in walk(pr, set()))
                hd = [b for c, b in q.conds if any(x.op in ("hasattr", "isnone", "attr") and any(
                    y.op == "attr" and y.args[1] == "data" or y.op == "hasattr" for y in walk(x, set())) for x in walk(c, set()))]
                data.setdefault(n, set()).add(has)
    for n, s in data.items():
        if n.startswith("Multi") and True not in s:
            rep.bad("properties", "GeoJSON output %s" % byname[n], "the data of the parts is not written", where)
        elif n.startswith("Multi"):
            rep.ok("GeoJSON output %s: the data of the parts is written" % byname[n], where)
    tab.done(set(byname))


def last(t):
    if t.op == "call":
        return fmt(t.args[0]).split(".")[-1].split(", ")[-1].rstrip(">")
    if t.op == "mcall":
        return t.args[1]
    return None


def geojson_in(rep, p):
    f = p.modules[READ].funcs.get("read_geojson")
    if f is None:
        rep.undec("no read_geojson")
        return
    rep.fn("read_geojson")
    where = "%s (%s)" % (f.where, f.qual)
    it = Interp(p, Flow((READ,)))
    tab = Table(rep, "read_geojson", where)
    collections = {"Feature": None, "FeatureCollection": "features", "GeometryCollection": "geometries"}
    for q in it.run(f):
        doc = {x for c, b in q.conds for x in walk(c, set()) if x.op == "isinstance"}
        if not doc:
            continue
        first = [x for c, b in q.conds for x in walk(c, set()) if x.op == "isinstance"][0].args[0]
        eq, ne = literals(q.conds, lambda t: t is first)
        if eq is None and set(BACK) <= ne:
            if tab.other != "return":
                tab.other = q.kind
            continue
        if q.kind != "return" or not eq:
            continue
        v = it.reify(q.value, q.state)
        for n in eq:
            tab.seen[n] = True
            lab = "read_geojson %s" % n
            if n in collections:
                json_collection(rep, v, first, n, collections[n], lab, where)
                continue
            cls, args = newclass(v)
            if cls is None:
                rep.undec(lab)
                continue
            built(rep, "read_geojson", n, cls, args, lambda t: t is mk("attr", first, "coordinates"), None, where)
            if "crs" not in args:
                rep.bad("coordinates", lab + " crs", "the coordinate system is not set", where)
            elif args["crs"] is mk("param", "crs"):
                rep.ok(lab + ": coordinate system", where)
    tab.done(set(BACK) | set(collections))


def json_collection(rep, v, doc, n, field, lab, where):
    calls = [x for x in walk(v, set()) if x.op == "call" and x.args[0].op == "closure"]
    if not calls:
        news = [x for x in walk(v, set()) if x.op == "new"]
        if news:
            rep.undec(lab)
        else:
            rep.undec(lab + ": parts")
        return
    if field is not None:
        its = [x for x in walk(v, set()) if x.op == "each"]
        bases = [strip_order(x.args[0]) for x in its]
        if any(b is mk("attr", doc, field) for b in bases):
            rep.ok(lab + ": each of its %s in order" % field, where)
        elif None in bases and any(x is mk("attr", doc, field) for x in walk(v, set())):
            rep.bad("type", lab, "not all of its %s are read in order" % field, where)
        else:
            rep.undec(lab + ": parts")
    if n == "GeometryCollection":
        src = mk("attr", doc, field)
        for c in calls:
            if any(const_index(x, src) for _, a in c.args[1] if isinstance(a, T) for x in walk(a, set())):
                rep.bad("type", lab, "one geometry is read for all of them", where)
        return
    feat = doc
    if field is not None:
        el = [x for x in walk(v, set()) if x.op == "elem" and strip_order(x.args[0]) is mk("attr", doc, field)]
        if not el:
            rep.undec(lab + ": features")
            return
        feat = el[0]
    for c in calls:
        a = dict(c.args[1])
        g = [x for k, x in c.args[1] if isinstance(x, T) and x is mk("attr", feat, "geometry")]
        if not g:
            rep.undec(lab + ": geometry of features")
            continue
        if a.get("crs") is mk("param", "crs"):
            rep.ok(lab + ": coordinate system of features", where)
        elif "crs" not in a:
            rep.bad("coordinates", lab + " crs", "the coordinate system is not passed to the geometries of features", where)
        props = mk("attr", feat, "properties")
        kept = [k for k in ("properties", "data") if k in a and any(x is props for x in walk(a[k], set()))]
        if "properties" not in kept and "data" not in kept:
            rep.bad("properties", lab, "the properties of features are lost", where)
            continue
        d = a.get("data")
        pr = a.get("properties")
        if d is None and pr is not None and pr.op == "dict" and any(x.op == "each" and x.args[2] for x in pr.args):
            rep.bad("properties", lab + " data", "properties that are not singletons are dropped", where)
        if d is not None and d.op == "dict" and d.args:
            for x in d.args:
                if x.op != "each" or x.args[3].op != "kv":
                    rep.undec(lab + ": data")
                    continue
                conds = x.args[2]
                ln = [b for cc, b in conds if cc.op == "cmp" and cc.args[0] == "==" and sum(y.op == "len" for y in cc.args[1:]) >= 1]
                if not ln:
                    rep.bad("properties", lab + " data", "properties of any length become data of the parts", where)
                elif ln != [True] * len(ln):
                    rep.bad("properties", lab + " data", "properties with other lengths than the number of parts become their data", where)
                else:
                    typed = [b for cc, b in conds if cc.op == "isinstance"]
                    if not typed and not any(cc.op == "in" for cc, b in conds):
                        rep.bad("properties", lab + " data", "text as long as the number of parts becomes data of the parts", where)
                    else:
                        rep.ok(lab + ": lists with one value per part are data", where)
                kv(rep, x, lab + " data", where)
        pr = a.get("properties")
        if pr is not None and pr.op == "dict":
            for x in pr.args:
                if x.op == "each" and x.args[3].op == "kv":
                    kv(rep, x, lab + " properties", where)


def kv(rep, x, lab, where):
    k, v = x.args[3].args
    if k.op == "item" and v.op == "item" and k.args[0] is v.args[0]:
        if (cval(k.args[1]), cval(v.args[1])) == (0, 1):
            rep.ok(lab + ": every value under its name", where)
        else:
            rep.bad("properties", lab, "names and values are exchanged", where)
    elif v.op == "item" and v.args[1] is k:
        rep.ok(lab + ": every value under its name", where)
    else:
        rep.undec(lab)


# ---------------------------------------------------------------- shapefiles
def ogr_read(rep, p):
    m = p.modules[SHP]
    f = m.funcs.get("ogr_read_geometry")
    if f is None:
        rep.undec("no ogr_read_geometry")
        return
    rep.fn("ogr_read_geometry")
    where = "%s (%s)" % (f.where, f.qual)
    src = mk("param", f.pos[0])
    is_type = lambda t: t.op in ("item", "mcall") and any(x.op == "mcall" and x.args[1] == "GetGeometryType" and x.args[0] is src
                                                          for x in walk(t, set()))
    it = Interp(p, Flow((SHP,)))
    seen, other = {}, None
    for q in it.run(f):
        eq, ne = literals(q.conds, is_type)
        if q.kind == "raise" or not eq:
            if eq is None and ne:
                other = "raise" if q.kind == "raise" and other != "return" else "return"
            continue
        v = it.reify(q.value, q.state)
        d = asdict(v)
        if d is None or "type" not in d or not is_const(d["type"]):
            rep.undec("ogr_read_geometry: result")
            continue
        got = cval(d["type"])
        for n in eq:
            seen[n] = got
        kinds = {base(n) for n in eq if base(n)}
        if kinds == {got}:
            rep.ok("ogr_read_geometry: %s is %s" % (", ".join(sorted(eq)), got), where)
        elif kinds:
            rep.bad("type", "ogr_read_geometry %s" % sorted(kinds - {got})[0], "%s is read as %s" % (sorted(kinds - {got})[0], got), where)
        if got in DEPTH:
            ogr_coords(rep, d.get("coordinates"), src, got, where)
        b = d.get("bbox")
        if b is not None and b.op in ("tuple", "list") and len(b.args) == 4:
            idx = [cval(x.args[1]) for x in b.args if x.op == "item" and is_const(x.args[1]) and x.args[0].op == "mcall" and
                   x.args[0].args[1] == "GetEnvelope"]
            if len(idx) == 4 and idx != [0, 2, 1, 3]:
                rep.bad("coordinates", "ogr_read_geometry bbox", "the bounding box is not (xmin, ymin, xmax, ymax)", where)
    built_table = any(isinstance(x, ast.Call) and getattr(x.func, "attr", "") == "startswith" and x.args and
                      isinstance(x.args[0], ast.Constant) and x.args[0].value == "wkb" for x in ast.walk(m.tree))
    if not seen:
        rep.undec("ogr_read_geometry: types")
        return
    for k in sorted(BACK):
        for s in SUFFIX:
            if k + s not in seen:
                rep.bad("type", "ogr_read_geometry %s%s" % (k, s), "%s%s geometries are refused" % (k, s), where)
    if built_table and "NDR" not in seen and not any(isinstance(x, ast.Constant) and x.value in ("NDR", "wkbNDR") for x in ast.walk(m.tree)):
        rep.bad("type", "ogr_read_geometry NDR", "points are called NDR by OGR's constants and are refused", where)
    if other == "return":
        rep.bad("type", "ogr_read_geometry other", "unknown types are not refused", where)
    elif other:
        rep.ok("ogr_read_geometry: other types are refused", where)


def base(n):
    for k in sorted(BACK, key=len, reverse=True):
        if n.startswith(k) and n[len(k):] in ("", "25D", "Z", "M", "ZM"):
            return k
    return None


def ogr_coords(rep, t, src, kind, where):
    lab = "ogr_read_geometry %s" % kind
    if t is None:
        rep.bad("coordinates", lab, "there are no coordinates", where)
        return
    geom, depth = src, 0
    # MultiPoint: the only vertex of each part
    levels = {"Point": 0, "LineString": 0, "Polygon": 1, "MultiPoint": 1, "MultiLineString": 1, "MultiPolygon": 2}[kind]
    for _ in range(levels):
        while extname(t) in ("list", "tuple") and cargs(t):
            t = cargs(t)[0]
        if t.op == "item" and t.args[1].op == "slice" and t.args[0].op == "list":
            rep.bad("coordinates", lab, "not all parts are read in order", where)
            return
        b = [t]
        # a list filtered from another list comprehension
        if t.op != "list" or len(t.args) != 1 or t.args[0].op != "each":
            rep.undec(lab + ": parts")
            return
        e = t.args[0]
        src2 = strip_order(e.args[0])
        if src2 is None:
            rep.bad("coordinates", lab, "not all parts are read in order", where)
            return
        val = e.args[3]
        if src2.op == "list" and len(src2.args) == 1 and src2.args[0].op == "each":
            # [f(x) for x in [g(i) for i in range(n)]]: the interpreter substitutes elements of the inner list
            inner = src2.args[0]
            el = [x for x in walk(val, set()) if x.op == "elem" and x.args[0] is e.args[0]]
            from ..terms import subst
            if el:
                val = subst(val, {el[0]: inner.args[3]})
            src2 = strip_order(inner.args[0])
            if src2 is None:
                rep.bad("coordinates", lab, "not all parts are read in order", where)
                return
            e = inner
        if extname(src2) == "range":
            a = cargs(src2)
            n = a[-1] if len(a) <= 2 else None
            start_ok = len(a) == 1 or len(a) == 2 and is_const(a[0]) and cval(a[0]) == 0
            count = mk("mcall", geom, "GetGeometryCount", ())
            if n is None:
                rep.undec(lab + ": parts")
                return
            if not start_ok or n is not count:
                if any(x is count for x in walk(src2, set())):
                    rep.bad("coordinates", lab, "not all parts are read: %s" % fmt(src2)[:80], where)
                else:
                    rep.undec(lab + ": number of parts")
                return
        elif src2 is not geom:
            rep.undec(lab + ": parts")
            return
        el = [x for x in walk(val, set()) if x.op == "elem" and (x.args[0] is e.args[0] or strip_order(x.args[0]) is src2)]
        if not el:
            rep.bad("coordinates", lab, "every part is read from the same geometry", where)
            return
        geom = mk("mcall", geom, "GetGeometryRef", ((0, el[0]),)) if extname(src2) == "range" else el[0]
        t = val
    pts = mk("mcall", geom, "GetPoints", ())
    cut = False
    if t.op == "item" and t.args[1].op == "slice":
        s = [cval(y) if is_const(y) else "?" for y in t.args[1].args]
        if s == [None, -1, None]:
            cut = True
        else:
            rep.bad("coordinates", lab, "the points are reordered or cut", where)
            return
        t = t.args[0]
    first = False
    if t.op == "item" and is_const(t.args[1]) and t.args[0] is pts:
        first = cval(t.args[1]) == 0
        if not first:
            rep.undec(lab + ": points")
            return
        t = t.args[0]
    if t.op == "mcall" and t.args[0] is geom and t.args[1] == "GetPoint" and kind in ("Point", "MultiPoint"):
        rep.bad("coordinates", lab, "OGR's GetPoint gives points without z a third coordinate", where)
        return
    if t is not pts:
        rep.undec(lab + ": points")
        return
    point = kind in ("Point", "MultiPoint")
    ring = kind in ("Polygon", "MultiPolygon")
    if point and not first or not point and first:
        rep.bad("coordinates", lab, "the points are nested differently than in a %s" % kind, where)
    elif cut and not ring:
        rep.bad("coordinates", lab, "the last point is lost", where)
    elif ring and not cut:
        rep.bad("coordinates", lab, "the repeated last vertex of rings becomes a vertex of the polygon", where)
    else:
        rep.ok("%s: all points of all parts in order" % lab, where)


def ogr_types(rep, p):
    m = p.modules[SHP]
    for st in m.tree.body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.Dict) and \
                len(st.value.keys) >= 5 and all(isinstance(k, ast.Constant) and k.value in NAMES for k in st.value.keys):
            where = "%s:%d" % (m.rel, st.lineno)
            got = {}
            for k, v in zip(st.value.keys, st.value.values):
                got[k.value] = WKB.get(getattr(v, "attr", ""), v.value if isinstance(v, ast.Constant) else None)
            for n in sorted(BACK):
                lab = "%s %s" % (st.targets[0].id, n)
                if n not in got:
                    rep.bad("type", lab, "%s has no layer type" % n, where)
                elif got[n] is None:
                    rep.undec(lab)
                elif got[n] != CODES[n][0]:
                    rep.bad("type", lab, "the layer type of %s is that of another type" % n, where)
                else:
                    rep.ok("%s is OGR type %d" % (lab, got[n]), where)


def geometry_type(rep, p):
    f = p.modules[SHP].funcs.get("get_geometry_type")
    if f is None:
        return
    rep.fn("get_geometry_type")
    where = "%s (%s)" % (f.where, f.qual)
    src = mk("param", f.pos[0])
    ty = mk("item", src, const("type"))
    it = Interp(p, Flow((SHP,)))
    for q in it.run(f):
        if q.kind != "return":
            continue
        eq, ne = literals(q.conds, lambda t: t is ty)
        v = it.reify(q.value, q.state)
        if eq == {"Feature"}:
            if any(x is mk("item", src, const("geometry")) for x in walk(v, set())):
                rep.ok("get_geometry_type: of a feature's geometry", where)
            elif v is ty:
                rep.bad("type", "get_geometry_type Feature", "the type of a feature is not its geometry's", where)
        elif eq is None and "Feature" in ne:
            if v is ty:
                rep.ok("get_geometry_type: the type's name", where)
            elif is_const(v):
                rep.bad("type", "get_geometry_type", "the type is always %r" % cval(v), where)
            else:
                rep.undec("get_geometry_type: result")


def three_d(rep, p):
    """whether nested coordinate lists have a vertex with three coordinates"""
    f = p.modules[SHP].funcs.get("is_3d")
    if f is None:
        return
    rep.fn("is_3d")
    where = "%s (%s)" % (f.where, f.qual)
    src = mk("param", f.pos[0])
    it = Interp(p, Flow((SHP,), ("is_3d",)))
    for q in it.run(f):
        if q.kind != "return":
            continue
        v = it.reify(q.value, q.state)
        nested = None
        for c, b in q.conds:
            if c.op in ("hasattr", "isinstance") and c.args[0] is mk("item", src, const(0)):
                nested = b
        if nested is True:
            rec = [x for x in walk(v, set()) if x.op == "call" and last(x) == "is_3d"]
            if rec and all(x.op == "call" and any(is_const(i.args[1]) for i in walk(x, set()) if i.op == "item" and i.args[0] is src)
                           for x in rec):
                rep.bad("coordinates", "is_3d", "only one part decides whether there is a third coordinate", where)
            elif rec and extname(v) == "all":
                rep.bad("coordinates", "is_3d", "geometries with some 3-d vertices count as 2-d", where)
            elif rec and extname(v) == "any":
                rep.ok("is_3d: any part", where)
            elif not rec and (v.op == "cmp" and any(x is mk("len", src) for x in v.args[1:])):
                rep.bad("coordinates", "is_3d", "the number of parts is taken as the number of coordinates", where)
            else:
                rep.undec("is_3d: parts")
        elif v.op == "cmp" and any(x is mk("len", src) for x in v.args[1:]):
            n = [(i, cval(x)) for i, x in enumerate(v.args[1:]) if is_const(x)]
            if len(n) == 1:
                i, n = n[0]
                ans = [{"==": r == n, "<": n < r if i == 0 else r < n, "<=": n <= r if i == 0 else r <= n}.get(v.args[0]) for r in (2, 3)]
                if ans == [False, True]:
                    rep.ok("is_3d: vertices with three coordinates", where)
                else:
                    rep.bad("coordinates", "is_3d", "vertices with two and three coordinates give %s" % ans, where)
        elif nested is not None:
            rep.undec("is_3d: vertex")


class Geo(object):
    def __init__(self, code, loops, order):
        self.code, self.loops, self.order = code, loops, order
        self.points, self.subs, self.added = [], [], None


def code_of(t):
    if is_const(t):
        return cval(t)
    if t.op == "attr":
        return WKB.get(t.args[1])
    if t.op == "global":
        return WKB.get(t.args[1])
    if t.op == "item" and is_const(t.args[1]) and t.args[0].op == "global" and cval(t.args[1]) in CODES:
        return CODES[cval(t.args[1])][0]
    return None


def ogr_write(rep, p):
    m = p.modules[SHP]
    f = m.funcs.get("ogr_write_feature")
    if f is None:
        rep.undec("no ogr_write_feature")
        return
    rep.fn("ogr_write_feature")
    where = "%s (%s)" % (f.where, f.qual)
    gi = mk("param", f.pos[1])
    geometry = mk("item", gi, const("geometry"))
    ty, coords = mk("item", geometry, const("type")), mk("item", geometry, const("coordinates"))
    it = Interp(p, Flow((SHP,)))
    tab = Table(rep, "shapefile output", where)
    for q in it.run(f):
        eq, ne = literals(q.conds, lambda t: t is ty)
        if eq is None and set(BACK) <= ne:
            if tab.other != "return":
                tab.other = q.kind
            continue
        if q.kind == "raise" or not eq:
            continue
        nodes, final, created, problem = {}, None, False, None
        for i, e in enumerate(q.events):
            t = e.term
            if e.kind not in ("mcall", "call"):
                continue
            nm = last(t)
            if nm == "Geometry" and len(cargs(t)) == 1:
                if t not in nodes or nodes[t].loops != e.loops:
                    nodes[t] = Geo(code_of(cargs(t)[0]), e.loops, i)
            elif e.kind == "mcall" and t.args[0] in nodes:
                g = nodes[t.args[0]]
                if nm in ("AddPoint", "AddPoint_2D"):
                    g.points.append((nm, cargs(t), e.loops, e.conds, i))
                elif nm in ("AddGeometry", "AddGeometryDirectly"):
                    if cargs(t)[0] in nodes:
                        c = nodes[cargs(t)[0]]
                        if c not in [x for x, _ in g.subs]:
                            g.subs.append((c, e.loops))
                        c.added = (i, e.loops, nm)
                    else:
                        problem = "parts"
                elif nm not in ("CloseRings", "FlattenTo2D", "AssignSpatialReference", "GetGeometryName", "IsEmpty"):
                    problem = nm
            elif nm == "SetGeometry" and cargs(t) and cargs(t)[0] in nodes:
                final = nodes[cargs(t)[0]]
            elif nm == "CreateFeature":
                created = True
        for n in eq:
            tab.seen[n] = True
            if n not in CODES:
                continue
            lab = "shapefile output %s" % n
            if final is None:
                if any(last(e.term) in ("SetGeometry", "SetGeometryDirectly") for e in q.events if e.kind == "mcall"):
                    rep.undec(lab + ": geometry")
                else:
                    rep.bad("coordinates", lab, "the geometry is not written", where)
                continue
            if not created:
                rep.bad("coordinates", lab, "the feature is not added to the layer", where)
            if problem:
                rep.undec(lab + ": %s" % problem)
            want = CODES[n]
            if final.code is None:
                rep.undec(lab + ": type")
            elif final.code != want[0]:
                rep.bad("type", lab, "%s is written as OGR type %d" % (n, final.code), where)
            else:
                rep.ok("%s is written as OGR type %d" % (lab, want[0]), where)
            level(rep, final, want, 0, [coords], n, lab, where)
    tab.done(set(BACK))


def level(rep, g, want, k, path, kind, lab, where):
    if k + 1 < len(want):
        if not g.subs:
            if not g.points:
                rep.bad("coordinates", lab, "parts are not written", where)
            else:
                rep.bad("type", lab, "points are added where %s has parts" % kind, where)
        for c, loops in g.subs:
            if c.code is not None and c.code != want[k + 1]:
                rep.bad("type", lab, "the parts of %s are written as OGR type %d" % (kind, c.code), where)
                continue
            if len(c.loops) < len(loops) and want[k + 1] != 1:
                rep.bad("coordinates", lab, "all parts of %s share one OGR geometry" % kind, where)
                continue
            late = [x for x in c.points if c.added and x[4] > c.added[0] and c.added[2] == "AddGeometry" and
                    len(x[2]) >= len(c.added[1])]
            early = [x for x in c.points if c.added and x[4] < c.added[0]]
            if late and not early:
                rep.bad("coordinates", lab, "vertices are added to a part after OGR copied it", where)
                continue
            level(rep, c, want, k + 1, path, kind, lab, where)
        return
    if not g.points:
        rep.bad("coordinates", lab, "vertices are not written", where)
    for nm, args, loops, conds, i in g.points:
        cur = path[0]
        bad = False
        if len(loops) != DEPTH[kind]:
            rep.undec(lab + ": loops")
            continue
        for lo in loops:
            b = strip_order(lo)
            if b is None:
                rep.bad("coordinates", lab, "the vertices are not all written in order", where)
                bad = True
                break
            if b is cur:
                el = [x for a in list(args) + list(loops) for x in walk(a, set()) if x.op == "elem" and strip_order(x.args[0]) is cur]
            elif extname(b) == "range" and len(cargs(b)) == 1 and cargs(b)[0] is mk("len", cur):
                el = [x for a in list(args) + list(loops) for x in walk(a, set()) if x.op == "item" and x.args[0] is cur and
                      x.args[1].op in ("elem", "idx")]
            elif extname(b) == "range" and any(x is mk("len", cur) for x in walk(b, set())):
                rep.bad("coordinates", lab, "the vertices are not all written: %s" % fmt(b)[:60], where)
                bad = True
                break
            else:
                el = []
            if not el:
                rep.undec(lab + ": loops")
                bad = True
                break
            cur = el[0]
        if bad:
            continue
        rank = rank_of(conds, cur)
        vals = []
        for a in args:
            while extname(a) == "float" and cargs(a):
                a = cargs(a)[0]
            if a.op == "star" and a.args[0] is cur:
                vals = [0, 1, 2]
                break
            if a.op == "item" and a.args[0] is cur and is_const(a.args[1]):
                vals.append(cval(a.args[1]))
            elif is_const(a):
                vals.append("constant")
            elif extname(a) in ("int", "round", "numpy.round", "math.floor", "numpy.float32") and cargs(a):
                vals.append("%s(...)" % extname(a))
            elif a.op == "item" and is_const(a.args[1]) and a.args[0] is not cur and const_index(a.args[0], path[0]):
                vals.append("of one vertex")
            else:
                vals.append(None)
        if None in vals:
            rep.undec(lab + ": vertices")
        elif vals[:2] != [0, 1] or len(vals) > 2 and vals[2] != 2:
            rep.bad("coordinates", lab, "vertices are written with coordinates %s" % vals, where)
        elif 3 in rank and (len(vals) < 3 or nm == "AddPoint_2D"):
            rep.bad("coordinates", lab, "the third coordinate is not written", where)
        else:
            rep.ok("%s: coordinates %s of every vertex in order" % (lab, vals), where)


def const_index(t, base):
    """t is a part of base at constant indices"""
    while t.op == "item" and is_const(t.args[1]):
        t = t.args[0]
        if t is base:
            return True
    return False


def rank_of(conds, cur):
    """ranks a vertex may have on a path"""
    ranks = {2, 3}
    for c, b in conds:
        u, v = c, b
        while u.op == "not":
            u, v = u.args[0], not v
        if u.op == "cmp" and any(x.op == "len" and x.args[0] is cur for x in u.args[1:]):
            n = [(i, cval(x)) for i, x in enumerate(u.args[1:]) if is_const(x)]
            if len(n) == 1 and isinstance(n[0][1], int):
                i, n = n[0]
                ranks = {r for r in ranks if {"==": r == n, "<": n < r if i == 0 else r < n,
                                              "<=": n <= r if i == 0 else r <= n}.get(u.args[0]) is v}
    return ranks


def layers(rep, p):
    """the layer's type is that of the geometries, and the reader pairs geometries with attributes"""
    m = p.modules[SHP]
    f = m.funcs.get("ogr_write")
    if f is not None:
        rep.fn("ogr_write")
        where = "%s (%s)" % (f.where, f.qual)
        it = Interp(p, Flow((SHP,), ("ogr_write_feature", "infer_field_type", "is_3d")))
        types, feats, zconds = [], [], set()
        for q in it.run(f):
            if q.kind == "raise":
                continue
            for e in q.events:
                nm = last(e.term) if e.kind in ("mcall", "call") else None
                if nm == "CreateLayer":
                    a = cargs(e.term)
                    zconds |= {c for c, b in q.conds if any(last(x) == "is_3d" for x in walk(c, set()) if x.op == "call")}
                    types.append(a[2] if len(a) > 2 else None)
                elif nm == "ogr_write_feature":
                    feats.append((e.loops, dict(e.term.args[1])))
        if types and all(t is not None for t in types):
            z = [any(x.op in ("mcall", "attr", "global", "call") and ("SetZ" in fmt(x) or "25D" in fmt(x) or "SetModifier" in fmt(x))
                     for x in walk(t, set())) for t in types]
            if not any(z) and all(any(x.op == "global" and x.args[1] == "OGRTYPES" for x in walk(t, set())) for t in types):
                rep.bad("coordinates", "ogr_write layer", "layers have no third coordinate, so that of 3-d geometries is dropped", where)
            elif any(z):
                rep.ok("ogr_write: layers of 3-d geometries are 3-d", where)
        objs = mk("param", "*" + (f.vararg or "objs")) if f.vararg else None
        for t in types:
            if t is not None and objs is not None and not any(x is objs for x in walk(t, set())):
                rep.bad("type", "ogr_write layer type", "the layer's type does not depend on the geometries", where)
            for x in zconds:
                ob = [y for y in walk(x, set()) if y.op == "item" and y.args[0] is objs and is_const(y.args[1])]
                if ob and not any(y.op in ("each", "elem") and y.args[0] is objs for y in walk(x, set())):
                    rep.bad("coordinates", "ogr_write layer rank", "only one geometry decides whether the layer is 3-d", where)
        for loops, a in feats:
            if len(loops) != 1:
                rep.undec("ogr_write: features")
                continue
            b = strip_order(loops[0])
            if b is None:
                rep.bad("coordinates", "ogr_write features", "not all geometries are written in order", where)
            elif objs is not None and b is objs:
                rep.ok("ogr_write: every geometry is written, in order", where)
            else:
                rep.undec("ogr_write: features")
        if not feats:
            rep.undec("ogr_write: features")
    pairs(rep, p, "properties")


def pairs(rep, p, rule):
    """the reader gives each geometry the attributes of its row"""
    f = p.modules[READ].funcs.get("ogr_read_shapefile")
    if f is None:
        return
    rep.fn("ogr_read_shapefile")
    where = "%s (%s)" % (f.where, f.qual)
    it = Interp(p, Flow((READ,), ("_from_shape", "ogr_parse_srs", "get_filenames")))
    for q in it.run(f):
        if q.kind != "return":
            continue
        calls = [e for e in q.events if e.kind == "call" and last(e.term) == "_from_shape"]
        for e in calls:
            a = [x for _, x in e.term.args[1] if isinstance(x, T)]
            names = [{last(x) for x in walk(y, set()) if x.op in ("call", "mcall")} for y in a]
            if len(a) < 2 or len(names[0] | names[1]) == 0:
                rep.undec("read_shapefile: pairs")
                continue
            src = []
            for y in a[:2]:
                k = None
                if y.op == "item" and is_const(y.args[1]) and y.args[0].op == "elem" and extname(y.args[0].args[0]) == "zip":
                    z = cargs(y.args[0].args[0])
                    k = z[cval(y.args[1])] if cval(y.args[1]) < len(z) else None
                elif y.op == "elem":
                    k = y.args[0]
                src.append(k)
            if None in src:
                rep.undec("read_shapefile: pairs")
                continue
            st = [strip_order(x) for x in src]
            if None in st:
                rep.bad(rule, "read_shapefile pairs", "geometries get the attributes of other geometries", where)
            elif last(st[0]) == "ogr_read_geometries" and last(st[1]) == "ogr_read_attributes":
                rep.ok("read_shapefile: every geometry gets the attributes of its row", where)
            elif last(st[0]) == "ogr_read_attributes":
                rep.bad(rule, "read_shapefile pairs", "geometries and attributes are exchanged", where)
            else:
                rep.undec("read_shapefile: pairs")
        if not calls:
            rep.undec("read_shapefile: geometries")


def check(repo=None):
    rep = Report("C14", RULE)
    rep.minimum = 4
    rep.assumptions = ["OGR's AddGeometry copies its argument; GetPoints returns as many coordinates as the geometry has",
                       "picogeojson's named tuples are those of the GeoJSON types of the same names"]
    p = Program(repo, pyx=False)

    def guard(what, fn, *a):
        try:
            return fn(*a)
        except Exception as e:
            rep.undec("%s: %s %s" % (what, type(e).__name__, str(e)[:80]))
    tags = guard("geo interface", interfaces, rep, p) or {}
    guard("from_shape", from_shape, rep, p)
    guard("GeoJSON output", geojson_out, rep, p, tags)
    guard("GeoJSON input", geojson_in, rep, p)
    guard("OGR reader", ogr_read, rep, p)
    guard("OGR types", ogr_types, rep, p)
    guard("geometry type", geometry_type, rep, p)
    guard("3-d vertices", three_d, rep, p)
    guard("OGR writer", ogr_write, rep, p)
    guard("layers", layers, rep, p)
    return rep
