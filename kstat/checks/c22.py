"""C22: geographical coordinates get geodetic formulas and planar ones planar formulas."""
from ..loader import Program
from ..report import Report
from ..frames import Frames
from ..terms import mk, walk, contains, is_const, cval, arg, FALSE, T
from .c01 import entries, analyse, GEOM_CLASSES, FramePolicy
from ..interp import Policy

TECHNIQUE = "path-sensitive dispatch analysis (guard on the CRS of each computational kernel's coordinates)"
RULE = ("On every path of every geometry operation, a call of a geodetic or spherical kernel (or of a CRS's geodesic "
        "solver) must be guarded so that the coordinate system of its coordinates is geographical or a geodetic result "
        "is asked for, and a call of a planar kernel so that it is not; Point.distance/azimuth/walk use the geodesic "
        "solver exactly on geographical paths or when projected=False; index boxes made by adding a radius to "
        "coordinates occur only on planar paths; the spherical area formula only on spheres.")
V = "karta.vector."
GEODETIC = {V + "dateline.bbox", V + "convexhull.convexhull_sph", V + "intersection.intersects_sph",
            V + "intersection._intersects_sph", V + "intersection.intersection_sph", V + "contains.contains_proj",
            V + "vectorgeo.pt_nearest_proj", "karta.geodesy.sphere_distance", "karta.geodesy.sphere_azimuth",
            "karta.geodesy.spherical_area", "karta.geodesy.ellipsoidal_area", "karta.geodesy.ellipsoidal_forward",
            "karta.geodesy.ellipsoidal_inverse", "karta.geodesy.intersection_spherical"}
PLANAR = {V + "vectorgeo.bbox", V + "vectorgeo.length", V + "convexhull.convexhull", V + "convexhull.convexhull_simple",
          V + "intersection.intersects", V + "intersection.all_intersections", V + "intersection.intersection",
          V + "vectorgeo.pt_nearest_planar", "karta.geodesy.plane_distance", "karta.geodesy.plane_azimuth"}
CONTAINS = V + "contains.contains"
CONTAINS_PROJ = V + "contains.contains_proj"
SOLVERS = ("inverse", "forward")
# operations that must reach a geodetic computation on geographical paths
NEED = {"length", "area", "bbox", "convex_hull", "_nearest_to_point"}


def callee(t):
    if t.op == "call" and t.args[0].op == "func":
        return t.args[0].args[0]
    return None


def is_crs(t):
    return (t.op == "attr" and t.args[1] == "crs") or (t.op == "param" and t.args[0] == "crs") or \
        (t.op == "global" and t.args[0] == "karta.crs")


ACCESSORS = ("vertices", "coords", "vertex", "_vertices_in", "_segment_tuples_in", "asarray", "slice", "vectors",
             "transform", "project", "append", "extend")


class Geo(Frames):
    """Frames plus exact type tests"""
    def geographic(self, c):
        r = Frames.geographic(self, c)
        if r is None and not self.infeasible(c):
            for x in self.eqclass(self.canon(c)):
                for k, v in self.conds:
                    if k.op in ("cmp", "is") and (k.op == "is" or k.args[0] == "=="):
                        ab = k.args[1:] if k.op == "cmp" else k.args
                        ty = [y for y in ab if typed(y) is not None and self.canon(typed(y)) is x]
                        cl = [y for y in ab if y.op == "class"]
                        if ty and cl:
                            n = cl[0].args[0].split(".")[-1]
                            if n == "GeographicalCRS":
                                return v
                            if v:
                                return False
        return r


def typed(y):
    if y.op == "typeof":
        return y.args[0]
    if y.op == "attr" and y.args[1] == "__class__":
        return y.args[0]
    if y.op == "call" and y.args[0].op == "ext" and y.args[0].args[0] == "type" and len(y.args[1]) == 1:
        return y.args[1][0][1]
    return None


class Pol22(FramePolicy):
    no_inline = tuple(FramePolicy.no_inline) + ("ispolar",)


def mentions(conds, C):
    """does a condition look at the coordinate system in a way we do not model"""
    for c, _ in conds:
        if c.op in ("cmp", "isnone", "is"):
            continue
        if c.op == "isinstance":
            continue
        if contains(c, C):
            return True
    return False


def projected_false(conds):
    for c, v in conds:
        if c.op == "param" and c.args[0] == "projected":
            return v is False
    return None


def spherical(conds):
    """True/False if the path knows whether the two semi-axes are equal"""
    for c, v in conds:
        if c.op == "cmp" and c.args[0] == "==" and all(x.op == "attr" for x in c.args[1:]) and \
                {x.args[1] for x in c.args[1:]} == {"a", "b"}:
            return v
        if c.op == "cmp" and c.args[0] == "==" and any(x.op == "attr" and x.args[1] in ("f", "es", "e")
                                                       for x in c.args[1:]):
            return v
    return None


def check():
    rep = Report("C22", RULE)
    rep.minimum = 10
    rep.assumptions = ["kernels compute what their names say (their formulas are N01-N03 and C23)",
                       "containment in geographical polygons that do not enclose a pole is decided on the lon/lat plane "
                       "(documented design of Polygon.contains)"]
    p = Program()
    for c, f in entries(p):
        name = "%s.%s" % (c.name, f.name)
        i, paths = analyse(p, rep, c, f, policy=Pol22())
        rep.fn(name)
        types = {mk("param", f.pos[0]): c.name} if f.pos else {}
        for path in paths:
            if path.kind not in ("return", "fall"):
                continue
            geodetic = False
            opaque = False
            for e in path.events:
                t = e.term
                fr = Geo(e.conds, types)
                q = callee(t)
                if q in GEODETIC or (t.op == "mcall" and t.args[1] in SOLVERS and is_crs(t.args[0])):
                    geodetic = True
                if q is not None and q not in GEODETIC and q not in PLANAR:
                    opaque = True
                if t.op == "mcall" and not is_crs(t.args[0]) and t.args[1] not in ACCESSORS:
                    opaque = True
                if q in GEODETIC or q in PLANAR or q == CONTAINS:
                    kernel(rep, fr, e, q, t, name, f)
                elif t.op == "mcall" and t.args[1] in SOLVERS and is_crs(t.args[0]):
                    solver(rep, fr, e, t, name)
                elif t.op == "mcall" and t.args[1] in ("distance", "azimuth", "walk") and \
                        arg(t, "projected") is FALSE:
                    g = fr.geographic(fr.crs_of(t.args[0]))
                    if g is False and projected_false(e.conds) is not True:
                        rep.bad("geodetic-on-planar", name, "a geodetic %s is asked for planar coordinates"
                                % t.args[1], e.where)
                elif t.op == "mcall" and t.args[1] in ("search_within", "search_overlapping"):
                    box(rep, fr, e, t, name, f)
            if path.value is None or not f.pos:
                continue
            if c.name == "Point" and f.name in ("distance", "azimuth", "walk"):
                point_op(rep, i, path, name, f, types)
            elif f.name in NEED and path.kind == "return":
                own = mk("attr", mk("param", f.pos[0]), "crs")
                C = own
                cp = mk("param", "crs")
                fr = Geo(path.conds, types)
                if "crs" in f.pos and fr.cond(mk("isnone", cp)) is not True and fr.geographic(cp) is not None:
                    C = cp
                v = i.reify(path.value, path.state)
                if fr.geographic(C) and not geodetic and not is_const(v) and not opaque \
                        and not any(y.op in ("call", "mcall", "getprop") and deep(y) for y in walk(v)):
                    rep.bad("planar-on-geographic", name, "the result for geographical coordinates is computed without "
                            "any geodetic or spherical formula", path.where)
    return rep


def deep(y):
    q = callee(y)
    if q is not None:
        return True
    if y.op == "mcall":
        return y.args[1] not in ACCESSORS
    return False


def coordinate_system(fr, args, f):
    for x in args:
        r = fr.frame(x)
        if r is not None and r[0] == "C":
            return r[1]
    return mk("attr", mk("param", f.pos[0]), "crs") if f.pos else None


def kernel(rep, fr, e, q, t, name, f):
    args = [x for _, x in t.args[1]]
    C = coordinate_system(fr, args, f)
    if C is None:
        return
    g = fr.geographic(C)
    if fr.infeasible(C):
        return
    k = q.split(".")[-1]
    if q == CONTAINS:
        polar = None
        for c, v in e.conds:
            if any(x.op in ("mcall", "call", "getprop") and "ispolar" in repr(x)[:200] for x in walk(c)):
                polar = v
        if g and polar is True:
            rep.bad("planar-on-geographic", name, "a polygon around a pole is tested on the lon/lat plane", e.where)
        else:
            rep.ok("%s: %s" % (name, k), e.where)
        return
    if q == "karta.geodesy.spherical_area":
        s = spherical(e.conds)
        if s is False:
            rep.bad("sphere-on-ellipsoid", name, "the spherical area formula is used where the semi-axes differ", e.where)
    if q == "karta.geodesy.ellipsoidal_area":
        pass
    if q == CONTAINS_PROJ and g is None and any("ispolar" in repr(c)[:300] and v for c, v in e.conds):
        rep.undec("%s: %s behind ispolar" % (name, k))
        return
    if q in GEODETIC:
        if g is False and projected_false(e.conds) is not True:
            rep.bad("geodetic-on-planar", name, "%s is applied to coordinates of a system that is not geographical" % k,
                    e.where)
        elif g is None and not mentions(e.conds, C):
            rep.bad("undispatched", name, "%s is applied whether or not the coordinates are geographical" % k, e.where)
        elif g:
            rep.ok("%s: %s under a geographical guard" % (name, k), e.where)
        else:
            rep.undec("%s: %s" % (name, k))
    else:
        if g is True:
            rep.bad("planar-on-geographic", name, "%s is applied to geographical coordinates" % k, e.where)
        elif g is None and not mentions(e.conds, C):
            rep.bad("undispatched", name, "%s is applied whether or not the coordinates are geographical" % k, e.where)
        elif g is False:
            rep.ok("%s: %s under a planar guard" % (name, k), e.where)
        else:
            rep.undec("%s: %s" % (name, k))


def solver(rep, fr, e, t, name):
    C = t.args[0]
    g = fr.geographic(C)
    if fr.infeasible(C):
        return
    want = projected_false(e.conds)
    if want is True or g is True:
        rep.ok("%s: geodesic %s" % (name, t.args[1]), e.where)
    elif g is False:
        rep.bad("geodetic-on-planar", name, "the geodesic solver %s.%s is used for planar coordinates"
                % (C, t.args[1]), e.where)
    elif mentions(e.conds, C):
        rep.undec("%s: %s" % (name, t.args[1]))
    else:
        args = [x for _, x in t.args[2]]
        raw = [r for r in (fr.frame(x) for x in args) if r is not None and r[0] == "C"]
        if raw:
            rep.bad("undispatched", name, "the geodesic solver is used whether or not the coordinates are geographical",
                    e.where)
        else:
            rep.undec("%s: %s" % (name, t.args[1]))


def box(rep, fr, e, t, name, f):
    for _, a in t.args[2]:
        for x in walk(a):
            if x.op == "bin" and x.args[0] in ("+", "-"):
                fa, fb = fr.frame(x.args[1]), fr.frame(x.args[2])
                one = fa if fa is not None and fa[0] == "C" else fb
                other = x.args[2] if one is fa else x.args[1]
                if one is None or one[0] != "C" or not any(y.op == "param" for y in walk(other)) \
                        or fr.frame(other) is not None:
                    continue
                g = fr.geographic(one[1])
                if g is False:
                    rep.ok("%s: box of coordinates and radius" % name, e.where)
                elif g is True or not mentions(e.conds, one[1]):
                    rep.bad("degrees-as-metres", name, "a search box adds %s to coordinates that may be geographical"
                            % other, e.where)


def point_op(rep, i, path, name, f, types):
    v = i.reify(path.value, path.state)
    selfcrs = mk("attr", mk("param", f.pos[0]), "crs")
    fr = Geo(path.conds, types)
    g = fr.geographic(selfcrs)
    pf = projected_false(path.conds)
    uses = any(x.op == "mcall" and x.args[1] in SOLVERS and is_crs(x.args[0]) for x in walk(v)) or \
        any(callee(x) in GEODETIC for x in walk(v))
    if not any(x.op in ("attr", "mcall", "item") for x in walk(v)):
        return              # a constant such as NaN
    if any(x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] == "numpy.nan" for x in (v,)):
        return
    known_opaque = any(x.op == "call" and x.args[0].op == "func" and callee(x) not in GEODETIC | PLANAR for x in walk(v))
    planar_ok = g is False and pf is False
    geo_ok = g is True or pf is True
    if v.op == "ext":
        return
    if uses and not geo_ok and not known_opaque:
        if g is False:
            rep.bad("geodetic-on-planar", name, "a geodesic is used although a planar result is asked for", path.where)
        elif not mentions(path.conds, selfcrs):
            rep.bad("undispatched", name, "a geodesic is used whatever the coordinate system", path.where)
    elif not uses and not planar_ok and not known_opaque:
        if geo_ok:
            rep.bad("planar-on-geographic", name, "a planar formula is used although %s"
                    % ("the coordinates are geographical" if g else "projected=False asks for a geodetic result"),
                    path.where)
        elif not mentions(path.conds, selfcrs):
            rep.bad("undispatched", name, "a planar formula is used whatever the coordinate system", path.where)
    else:
        rep.ok("%s: formula by coordinate system" % name, path.where)
