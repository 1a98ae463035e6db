"""C04: queries and derivations do not modify their operands."""
from ..loader import Program
from ..effects import Effects, Roots, is_cache
from ..report import Report
from ..terms import mk, arg

TECHNIQUE = "interprocedural write-effect and alias analysis"
RULE = ("Write-effect analysis: for every public function and method of the package, on every path, each store, "
        "attribute assignment, deletion, in-place operator, mutating method or out= argument is traced through "
        "views, shallow copies, constructors and callee summaries to the parameter it reaches; a write to a "
        "parameter outside the documented in-place operations (or to anything but the receiver inside them) is a "
        "violation. Caches and spatial indexes are not observable state.")
MODULES = ("karta.vector.geometry", "karta.vector.table", "karta.vector._geojson", "karta.vector._shp",
           "karta.vector.read", "karta.vector.utilities", "karta.vector.metadata", "karta.raster.grid",
           "karta.raster.misc", "karta.raster.band", "karta.raster._gdal", "karta.raster.read",
           "karta.raster.coordgen", "karta.vector._gpx", "karta.tile", "karta.crs", "karta.geodesy",
           "karta.vector.coordstring")
# operations documented to modify their receiver
MUTATORS = {"__init__", "__setitem__", "__delitem__", "extend", "setfield", "set_nodata_value", "setblock",
            "add_waypoint", "add_track", "add_route", "fromfile", "parse_wpt", "parse_trk", "parse_rte", "__del__",
            "__iter__", "__next__", "next", "__enter__", "__exit__", "__cinit__", "__dealloc__", "__setattr__",
            "__delattr__", "__iadd__", "__isub__", "__setstate__"}
SWITCHED = ("inplace", "in_place")


def public(f):
    n = f.name
    if n.startswith("__") and n.endswith("__"):
        return True
    return not n.startswith("_")


def switched(conds):
    return any(c is mk("param", s) and v for c, v in conds for s in SWITCHED)


def check():
    rep = Report("C04", RULE)
    rep.minimum = 80
    rep.assumptions = ["numpy, GDAL and ElementTree calls have their documented view/copy/in-place behaviour",
                       "results may share immutable coordinates and the properties mapping with their source"]
    p = Program()
    eff = Effects(p)
    for mn in MODULES:
        m = p.modules.get(mn)
        if m is None:
            continue
        todo = [(None, f) for f in m.funcs.values()]
        for c in m.classes.values():
            todo += [(c, f) for f in c.methods.values()]
            todo += [(c, f) for f in getattr(c, "setters", {}).values()]
        for c, f in todo:
            if not public(f) or f.name.endswith(".setter"):
                continue
            es = eff.effects(f, c)
            name = (c.name + "." if c else "") + f.name
            rep.fn(name)
            n = 0
            selfp = f.pos[0] if (c is not None and f.pos and not f.is_static) else None
            for (pn, path, what, where, fn, conds) in es:
                if pn == selfp and (f.name in MUTATORS or is_setter(c, f)):
                    continue
                if pn == selfp and switched(conds):
                    continue
                if any(is_cache(x) for x in path):
                    continue
                if path == ():
                    continue
                if pn.startswith("**") and path == ("[]",):
                    continue          # the callee's own keyword dictionary
                if pn.startswith("*") and not pn.startswith("**") and path == ("[]",):
                    continue
                n += 1
                rep.bad("operand-modified", "%s(%s%s)" % (name, pn, fmtpath(path)),
                        "%s modifies its argument %s%s: %s %s" % (name, pn, fmtpath(path), short(fn), what), where)
            if n == 0:
                rep.ok("%s leaves its operands unchanged" % name, f.where)
    ownership(p, eff, rep)
    for u in eff.undec:
        rep.undec(u)
    return rep


def ownership(p, eff, rep):
    """Containers that a method modifies in place must be owned: not captured from a constructor argument,
    and grids returned by an operation must not hold the bands of an operand."""
    for mn in ("karta.vector.geometry", "karta.vector.table", "karta.vector._gpx"):
        m = p.modules.get(mn)
        for c in (m.classes.values() if m else ()):
            interior = {}
            for k in c.mro():
                for f in k.methods.values():
                    if f.name == "__init__" or not f.pos or f.is_static or f.is_classmethod:
                        continue
                    for (pn, path, what, where, fn, conds) in eff.effects(f, c):
                        if pn == f.pos[0] and len(path) == 2 and path[1] == "[]" and not is_cache(path[0]):
                            interior.setdefault(path[0], (f, where))
            for a, (f, where) in sorted(interior.items()):
                eff.ctor_alias(c.qual, a)
                cap = sorted(pn + fmtpath(q) for pn, q in eff.ctor_full.get((c.qual, a), ()) if "[]" not in q)
                if cap:
                    rep.bad("captured-then-modified", "%s.%s" % (c.name, a),
                            "%s keeps its constructor argument %s as %s without copying, and %s modifies it in "
                            "place: the caller's object changes" % (c.name, cap[0], a, f.name), where)
                else:
                    rep.ok("%s.%s is owned by its object" % (c.name, a), where)
    grid = "karta.raster.grid.RegularGrid"
    for mn in ("karta.raster.grid", "karta.raster.misc", "karta.tile", "karta.raster.read"):
        m = p.modules.get(mn)
        if m is None:
            continue
        todo = [(None, f) for f in m.funcs.values()] + [(c, f) for c in m.classes.values() for f in c.methods.values()]
        for c, f in todo:
            if not public(f) or f.name == "__init__":
                continue
            for kind, t, where in eff.results(f, c):
                if t.op == "new" and t.args[0].op == "class" and t.args[0].args[0].endswith(".RegularGrid"):
                    b = arg(t, "bands")
                    if b is None:
                        continue
                    r = Roots(p, eff)
                    held = set(r(b)) | r.elements(b)
                    held = {(pn, q) for pn, q in held if "bands" in q}
                    name = (c.name + "." if c else "") + f.name
                    if held:
                        rep.bad("shared-bands", name, "%s returns a grid that holds the bands of its operand %s: "
                                "writing to either changes both" % (name, sorted(held)[0][0]), where)
                    else:
                        rep.ok("%s returns a grid with its own bands" % name, where)


def is_setter(c, f):
    return c is not None and f in getattr(c, "setters", {}).values()


def fmtpath(path):
    return "".join(x if x == "[]" else "." + x for x in path)


def short(q):
    return ".".join(q.split(".")[-2:])
