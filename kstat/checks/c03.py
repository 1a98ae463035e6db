"""C03: raster operations convert geometry and coordinate arguments to the grid's coordinate system."""
from ..frames import CRS_METHODS
from ..gframes import GFrames
from ..interp import Interp, Policy, Overflow
from ..loader import Program
from ..report import Report
from ..terms import T, mk, const, is_const, cval, walk, arg, NONE

TECHNIQUE = "coordinate-frame dataflow inference over path-wise value terms"
RULE = ("Coordinate-frame inference over the path-wise value terms of every grid operation: transforms and cell "
        "coordinates are in the grid's own system, geometry coordinates in the system they are requested in, coordinate "
        "arguments in the system they are given with. On every path, coordinates that meet the grid's transform, its "
        "index computations or its polygon rasteriser must be in the grid's system, and every grid or geometry that is "
        "constructed must be labelled with the system of its coordinates.")
G = "karta.raster.grid"
SELF = mk("param", "self")
NOINLINE = set(CRS_METHODS) | {"positions", "indices", "_indices", "sample_nearest", "sample_bilinear", "mask_poly",
                               "sample", "clip", "gridpoints", "to_points", "get_nodata", "project", "transform", "size"}
# inputs of public operations: parameters that are coordinates, and the parameter naming their system (or the own one)
INPUTS = {"clip": (("xmin", "xmax", "ymin", "ymax"), "crs"), "positions": (("x", "y"), None), "indices": (("x", "y"), None),
          "_indices": (("x", "y"), None), "sample_nearest": (("x", "y"), None), "sample_bilinear": (("x", "y"), None),
          "resize": (("bboxnew",), None), "_align_origin": (("x", "y"), None)}


class Pol(Policy):
    max_depth = 3
    max_states = 1500

    def __init__(self, entry):
        self.entry = entry

    def inline(self, i, f, recv, d):
        if f.module.lang != "py" or not f.module.name.startswith("karta.raster"):
            return False
        if f.module.name == "karta.raster.band" or f.cls is not None and f.cls.name == "CoordinateGenerator":
            return False
        return f.name not in NOINLINE and not f.is_property


def seeds_of(f, given):
    own = ("C", mk("attr", SELF, "crs"))
    out = {}
    names, crs = INPUTS.get(f.name, ((), None))
    for n in names:
        if n in f.pos:
            out[mk("param", n)] = ("C", mk("param", crs)) if crs and given else own
    return out


def runs(f):
    """(conds, kwkeys, seeds) variants under which the operation is analysed"""
    crs = mk("param", "crs")
    own = ("C", mk("attr", SELF, "crs"))
    if f.name == "sample":
        a = mk("param", "*" + (f.vararg or "args"))
        xy = [mk("item", a, const(0)), mk("item", a, const(1))]
        pos = [mk("param", n) for n in f.pos[1:3]] if not f.vararg else xy
        if f.vararg:
            yield ((mk("isnone", crs), False),), ("crs", "method"), {t: ("C", crs) for t in pos}
            yield (), ("method",), {t: own for t in pos}
        else:
            yield ((mk("isnone", crs), False),), None, {t: ("C", crs) for t in pos}
            yield ((mk("isnone", crs), True),), None, {t: own for t in pos}
        return
    if f.name == "gridpoints":
        yield (), None, {mk("param", n): ("C", crs) for n in ("x", "y", "transform") if n in f.pos}
        return
    if f.name in INPUTS and INPUTS[f.name][1] in f.pos + f.kwonly:
        c = mk("param", INPUTS[f.name][1])
        yield ((mk("isnone", c), False),), None, seeds_of(f, True)
        yield ((mk("isnone", c), True),), None, seeds_of(f, False)
        return
    if f.name in ("_resample_transform",):
        yield (), None, {mk("param", "transform"): own}
        return
    yield (), (() if f.kwarg else None), seeds_of(f, False)


def geotyped(path):
    """geometry arguments: items tested for their geometry type"""
    out = {}
    for c, b in path.conds:
        if b and c.op == "cmp" and c.args[0] == "==":
            for x, y in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
                if is_const(y) and cval(y) in ("Point", "Multipoint", "Line", "Polygon") and x.op == "attr" and \
                        x.args[1] == "_geotype":
                    out[x.args[0]] = cval(y)
    return out


def analyse(p, rep, c, f):
    short = "%s%s" % (c.name + "." if c else "", f.name)
    rep.fn(short)
    for conds, kw, seeds in runs(f):
        i = Interp(p, Pol(f))
        try:
            paths = i.run(f, c, conds=conds, kwkeys=kw)
        except Overflow:
            rep.undec("%s: trace partition too large" % short)
            continue
        except Exception as e:
            rep.undec("%s: %s %s" % (short, type(e).__name__, e))
            continue
        for path in paths:
            if impossible(path.conds):
                continue
            geo = {x for cnd, b in path.conds if b and cnd.op == "hasattr" and cnd.args[1] == "_geotype"
                   for x in (cnd.args[0],)}
            types = geotyped(path)
            sd = {k: v for k, v in seeds.items() if k not in geo and k not in types}
            for fr, where, fn in frames(i, path, f, types, sd):
                for rule, msg in fr.hits:
                    rep.bad(rule, short_of(fn), msg, where)
                for o in fr.oks:
                    rep.ok("%s: %s" % (short_of(fn), o), where)


def short_of(q):
    return ".".join(q.split(".")[-2:])


def impossible(conds):
    seen = {}
    return any(seen.setdefault(t, b) != b for t, b in conds)


def grid_operand(c):
    """the system of a grid that is combined with the object itself or with other grids"""
    if c.op != "attr" or c.args[1] != "crs":
        return False
    x = c.args[0]
    while x.op in ("elem", "item"):
        x = x.args[0]
    while x.op == "call" and len(x.args[1]) >= 1 and x.args[0].op in ("ext", "builtin"):
        x = x.args[1][0][1]
        while x.op in ("elem", "item"):
            x = x.args[0]
    return x.op == "param" and x.args[0] in ("self", "other", "grids", "grid")


class F3(GFrames):
    def within(self, conds):
        return F3(self.conds + tuple(conds), self.types, None, self.seeds) if conds else self

    def same(self, a, b):
        r = super(F3, self).same(a, b)
        if r is False and grid_operand(self.canon(a)) and grid_operand(self.canon(b)):
            return True
        return r


def frames(i, path, f, types, seeds):
    for ev in path.events:
        if ev.kind not in ("call", "mcall", "new", "store", "aug", "yield", "setattr"):
            continue
        fr = F3(ev.conds, types, None, seeds)
        fr.frame(ev.term)
        if ev.kind == "store":
            fr.join([fr.frame(ev.term), fr.frame(ev.extra[1])], "an item assignment")
        yield fr, ev.where, ev.fn
    fr = F3(path.conds, types, None, seeds)
    if path.value is not None and path.kind == "return":
        fr.frame(i.reify(path.value, path.state))
    for cnd, v in path.conds:
        fr.frame(cnd)
    yield fr, path.where, f.qual


def check():
    rep = Report("C03", RULE)
    rep.minimum = 15
    rep.assumptions = ["grids that are combined with each other (sums, differences, mosaics) are in one system: the "
                       "operations take no other coordinates",
                       "coordinates passed without a coordinate system are in the grid's own system (documented)",
                       "geometry accessors return coordinates in the system they are asked for (C02)"]
    p = Program()
    m = p.modules[G]
    g = m.classes.get("RegularGrid")
    done = set()
    if g is not None:
        for k in g.mro():
            if not k.module.name.startswith("karta.raster"):
                continue
            for n, f in sorted(k.methods.items()):
                if n in done or n in ("__init__", "coordinates"):
                    continue
                done.add(n)
                analyse(p, rep, g, f)
    for mod in (G, "karta.raster.misc"):
        if mod in p.modules:
            for n, f in sorted(p.modules[mod].funcs.items()):
                analyse(p, rep, None, f)
    return rep
