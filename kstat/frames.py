"""Coordinate-frame inference on value terms.

Every coordinate term is tagged with the coordinate system it is expressed in
(a "frame"); conversions have frame contracts; operations that combine
coordinates need equal frames.  A mismatch is reported only if both frames are
known and nothing on the path equates them.
"""
from .terms import T, mk, const, NONE, TRUE, FALSE, is_const, cval, walk, arg

GEO = ("GEO",)
COORD_ATTRS = {"x", "y", "_vertex", "_vertices", "vertices_ring", "segment_tuples"}
CRS_METHODS = {"vertex", "vertices", "coords", "bbox", "extent", "_vertices_in", "_segment_tuples_in",
               "coordinates", "vertex_coords", "center_llref", "center_coords", "data_extent", "data_bbox"}
PRESERVE = {"asarray", "slice", "vectors", "copy", "ravel", "tolist", "astype", "reshape", "flatten",
            "squeeze", "transpose", "min", "max", "mean", "sum", "getX", "getY"}
PRESERVE_ATTR = {"T", "flat", "real"}
GEOM_RETURNING = {"walk", "shift", "apply_transform", "rotate", "to_polygon", "to_line", "convex_hull",
                  "nearest_on_boundary", "_subset", "to_points", "to_npoints", "intersections", "within_radius",
                  "within_bbox", "within_polygon", "within", "touching", "touching_bbox", "__getitem__", "extend",
                  "__iter__"}
KERNELS = ("karta.vector.vectorgeo.", "karta.vector.dateline.", "karta.vector.intersection.",
           "karta.vector.convexhull.", "karta.vector.contains.", "karta.geodesy.", "karta.raster.crfuncs.",
           "karta.raster.misc.")
GEOM_CLASSES = {"Point", "Line", "Polygon", "Multipoint", "Multiline", "Multipolygon"}
COORD_PARAM = {"Point": "coords", "Line": "vertices", "Polygon": "vertices", "Multipoint": "inputs",
               "Multiline": "inputs", "Multipolygon": "inputs"}
NUMPY_NOFRAME = {"numpy.zeros", "numpy.ones", "numpy.empty", "numpy.eye", "numpy.full", "numpy.arange",
                 "numpy.isnan", "numpy.argmin", "numpy.argmax", "numpy.sign", "numpy.all", "numpy.any",
                 "numpy.equal", "numpy.zeros_like", "numpy.empty_like", "numpy.ones_like", "numpy.argsort",
                 "numpy.nonzero", "numpy.searchsorted"}


class Frames(object):
    def __init__(self, conds=(), types=None, report=None):
        self.conds = tuple(conds)
        self.types = types or {}
        self.memo = {}
        self.report = report or (lambda *a: None)
        self.decided = report.ok if hasattr(report, "ok") else (lambda *a: None)
        self.hits = []      # (rule, message)
        self.oks = []

    # -------------------------------------------------------- CRS identity
    def cond(self, t):
        for c, v in self.conds:
            if c is t:
                return v
        return None

    def crs_of(self, x, depth=0):
        """CRS term of a geometry term."""
        if depth > 20:
            return mk("attr", x, "crs")
        op = x.op
        if op == "new":
            c = arg(x, "crs")
            if c is not None:
                return c
            if any(k == "**" for k, _ in x.args[1]):
                return mk("unknown", "crs", 0)
            first = None
            for n in ("coords", "vertices", "inputs", 0):
                first = arg(x, n)
                if first is not None:
                    break
            return mk("global", "karta.crs", "Cartesian")
        if op in ("elem", "item") and self.is_multi_geom(x.args[0]):
            return self.crs_of(x.args[0], depth + 1)
        if op == "attr" and x.args[1] == "segments":
            return self.crs_of(x.args[0], depth + 1)
        if op == "elem" and x.args[0].op == "attr" and x.args[0].args[1] == "segments":
            return self.crs_of(x.args[0].args[0], depth + 1)
        if op == "mcall" and x.args[1] in GEOM_RETURNING:
            return self.crs_of(x.args[0], depth + 1)
        if op == "lv":
            return self.crs_of(x.args[1], depth + 1)
        if op == "phi":
            cs = {self.crs_of(a, depth + 1) for a in x.args}
            if len(cs) == 1:
                return cs.pop()
            return mk("unknown", "crs", 1)
        if op in ("fold",):
            return self.crs_of(x.args[3], depth + 1)
        if op == "list" and len(x.args) == 1 and x.args[0].op == "each":
            return self.crs_of(x.args[0].args[3], depth + 1)
        if op in ("elem", "item") and x.args[0].op == "list" and x.args[0].args and \
                all(e.op == "each" for e in x.args[0].args):
            cs = {self.crs_of(e.args[3], depth + 1) for e in x.args[0].args}
            return cs.pop() if len(cs) == 1 else mk("unknown", "crs", 2)
        if op in ("unknown", "call", "undef"):
            return mk("unknown", "crs", 3)
        return mk("attr", x, "crs")

    def canon(self, c):
        if c.op == "attr" and c.args[1] == "crs":
            return self.crs_of(c.args[0]) if c.args[0].op != "new" or arg(c.args[0], "crs") is not None else c
        return c

    def known_crs(self, c):
        """Whether c denotes an independent CRS value (an input of the function)."""
        while c.op == "attr" or c.op in ("elem", "item"):
            c = c.args[0]
        if c.op == "mcall" and c.args[1] == "get":
            return True
        return c.op in ("param", "global", "crsor")

    def same(self, a, b):
        a, b = self.canon(a), self.canon(b)
        if a is b:
            return True
        for c, v in self.conds:
            if v and c.op == "cmp" and c.args[0] == "==":
                p, q = self.canon(c.args[1]), self.canon(c.args[2])
                if (p is a and q is b) or (p is b and q is a):
                    return True
            if v and c.op == "is":
                p, q = self.canon(c.args[0]), self.canon(c.args[1])
                if (p is a and q is b) or (p is b and q is a):
                    return True
        # transitively through one equated term
        ea, eb = self.eqclass(a), self.eqclass(b)
        if ea & eb:
            return True
        if self.geographic(a) is True and self.geographic(b) is True and False:
            return True
        if not (self.known_crs(a) and self.known_crs(b)):
            return None
        return False

    def eqclass(self, a):
        out, todo = {a}, [a]
        while todo:
            x = todo.pop()
            for c, v in self.conds:
                if v and c.op in ("cmp", "is"):
                    pq = c.args[1:] if c.op == "cmp" else c.args
                    if c.op == "cmp" and c.args[0] != "==":
                        continue
                    p, q = self.canon(pq[0]), self.canon(pq[1])
                    for m, n in ((p, q), (q, p)):
                        if m is x and n not in out:
                            out.add(n)
                            todo.append(n)
        return out

    def geographic(self, c):
        ev = self.evidence(c)
        return ev.pop() if len(ev) == 1 else None

    def infeasible(self, c):
        """no coordinate system satisfies what the path has tested"""
        return len(self.evidence(c)) > 1

    def evidence(self, c):
        c = self.canon(c)
        out, weak = set(), set()
        for x in self.eqclass(c):
            for k, v in self.conds:
                if k.op == "isinstance" and self.canon(k.args[0]) is x and k.args[1].op == "class":
                    n = k.args[1].args[0].split(".")[-1]
                    if n == "GeographicalCRS":
                        out.add(v)
                    elif n == "CartesianCRS":
                        out.add(not v)
                    elif n == "ProjectedCRS" and v:
                        out.add(False)
            if x.op == "global" and x.args[1] in ("LonLatWGS84", "SphericalEarth", "LonLatNAD27", "LonLatNAD83"):
                out.add(True)
            elif x.op == "global" and x.args[0] == "karta.crs":
                weak.add(False)
        return out or weak

    # -------------------------------------------------------- geometry typing
    def geomtype(self, t):
        if t in self.types:
            return self.types[t]
        op = t.op
        if op == "new" and t.args[0].op == "class":
            n = t.args[0].args[0].split(".")[-1]
            return n if n in GEOM_CLASSES else None
        if op == "isinstance":
            return None
        for c, v in self.conds:
            if v and c.op == "isinstance" and c.args[0] is t and c.args[1].op == "class":
                n = c.args[1].args[0].split(".")[-1]
                if n in GEOM_CLASSES:
                    return n
        if op in ("elem", "item"):
            b = self.geomtype(t.args[0])
            if op == "item" and t.args[1].op == "slice":
                return b
            if b in ("Line", "Polygon", "Multipoint"):
                return "Point"
            if b == "Multiline":
                return "Line"
            if b == "Multipolygon":
                return "Polygon"
            if t.args[0].op == "attr" and t.args[0].args[1] == "segments":
                return "Line"
            if t.args[0].op == "attr" and t.args[0].args[1] == "subs":
                return "Polygon"
        if op == "lv":
            return self.geomtype(t.args[1])
        if op == "mcall" and t.args[1] in ("walk",):
            return "Point"
        if op == "mcall" and t.args[1] in ("shift", "apply_transform", "rotate"):
            return self.geomtype(t.args[0])
        return None

    def is_multi_geom(self, t):
        g = self.geomtype(t)
        return g is not None and g != "Point"

    # -------------------------------------------------------- frames
    def hit(self, rule, msg):
        if (rule, msg) not in self.hits:
            self.hits.append((rule, msg))

    def good(self, what):
        self.oks.append(what)

    def compat(self, f, g, what):
        """Frames f and g are combined; report if definitely different."""
        if f is None or g is None:
            return True
        if f == GEO and g == GEO:
            self.good(what)
            return True
        if any(h[0] == "C" and self.infeasible(h[1]) for h in (f, g) if isinstance(h, tuple) and len(h) == 2):
            return True
        if f == GEO or g == GEO:
            c = (g if f == GEO else f)[1]
            k = self.geographic(c)
            if k is False or (k is None and self.known_crs(self.canon(c))):
                self.hit("frame-mix", "%s combines geographical coordinates with coordinates in %r" % (what, self.canon(c)))
                return False
            if k:
                self.good(what)
            return True
        s = self.same(f[1], g[1])
        if s is False:
            if self.geographic(f[1]) is True and self.geographic(g[1]) is True:
                return True
            self.hit("frame-mix", "%s combines coordinates in %r with coordinates in %r"
                     % (what, self.canon(f[1]), self.canon(g[1])))
            return False
        if s:
            self.good(what)
        return True

    def join(self, frames, what):
        out = None
        for f in frames:
            if f is None:
                continue
            for g in (f[1] if f[0] == "MULTI" else (f,)):
                if out is None:
                    out = g
                else:
                    self.compat(out, g, what)
        return out

    def require(self, f, c, what):
        """Coordinates with frame f are interpreted in CRS c."""
        if f is None:
            return
        for g in (f[1] if f[0] == "MULTI" else (f,)):
            if g == GEO:
                k = self.geographic(c)
                if k is not True and self.known_crs(self.canon(c)):
                    self.hit("frame-use", "%s takes coordinates in %r but is given geographical coordinates"
                             % (what, self.canon(c)))
                elif k:
                    self.good(what)
                continue
            s = self.same(g[1], c)
            if s is False:
                self.hit("frame-use", "%s takes coordinates in %r but is given coordinates in %r"
                         % (what, self.canon(c), self.canon(g[1])))
            elif s:
                self.good(what)

    def require_geo(self, f, what):
        if f is None:
            return
        for g in (f[1] if f[0] == "MULTI" else (f,)):
            if g == GEO:
                self.good(what)
                continue
            k = self.geographic(g[1])
            if k is True:
                self.good(what)
            elif self.known_crs(self.canon(g[1])):
                self.hit("frame-geo", "%s takes geographical coordinates but is given coordinates in %r"
                         % (what, self.canon(g[1])))

    def frame(self, t):
        if not isinstance(t, T):
            return None
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = None
        r = self._frame(t)
        self.memo[t] = r
        return r

    def multi(self, fs):
        out = []
        for f in fs:
            if f is None:
                continue
            for g in (f[1] if f[0] == "MULTI" else (f,)):
                if not any(g == h or (g != GEO and h != GEO and self.same(g[1], h[1])) for h in out):
                    out.append(g)
        if not out:
            return None
        if len(out) == 1:
            return out[0]
        return ("MULTI", tuple(out))

    def requested(self, t, x):
        c = arg(t, "crs")
        if c is None:
            c = arg(t, 0)
        own = self.crs_of(x)
        if c is None or c is NONE:
            return own
        if c.op == "param" or c.op == "lv":
            v = self.cond(mk("isnone", c))
            if v is True:
                return own
            if v is None and not self.same(c, own) and c.op == "param":
                if any(k is c for k, vv in self.conds if vv):
                    return c
                return mk("crsor", c, own)
        return c

    def _frame(self, t):
        op, a = t.op, t.args
        if op in ("const", "param", "class", "func", "mod", "ext", "global", "unknown", "undef", "idx", "typeof"):
            return None
        if op == "attr":
            x, n = a
            fx = self.frame(x)
            if n in COORD_ATTRS and self.crs_of(x).op != "unknown":
                if x.op in ("mod", "ext", "class"):
                    return None
                return ("C", self.crs_of(x))
            if n in PRESERVE_ATTR:
                return fx
            return None
        if op == "mcall":
            return self.mcall(t)
        if op == "call":
            return self.fcall(t)
        if op == "new":
            return self.new(t)
        if op == "bin":
            fa, fb = self.frame(a[1]), self.frame(a[2])
            return self.join([fa, fb], "the expression (.. %s ..)" % a[0])
        if op == "un":
            return self.frame(a[1])
        if op == "cmp":
            fa, fb = self.frame(a[1]), self.frame(a[2])
            self.join([fa, fb], "the comparison (.. %s ..)" % a[0])
            return None
        if op in ("and", "or", "not", "isnone", "isinstance", "hasattr", "len", "in", "is", "truth"):
            for x in a:
                self.frame(x)
            if op in ("and", "or"):
                return None
            return None
        if op in ("tuple", "list", "set"):
            return self.multi([self.frame(x) for x in a])
        if op == "dict":
            for x in a:
                self.frame(x)
            return None
        if op == "kv":
            return self.frame(a[1])
        if op == "star":
            return self.frame(a[0])
        if op == "each":
            sub = self.within(a[2])
            f = sub.frame(a[3])
            self.merge(sub)
            return f
        if op in ("item", "elem"):
            base = a[0]
            self.frame(a[1]) if op == "item" else None
            if self.geomtype(base) == "Point" and op == "item":
                return ("C", self.crs_of(base))
            if self.is_multi_geom(base):
                return None
            f = self.frame(base)
            if f is not None and f[0] == "MULTI" and op == "item" and base.op in ("tuple", "list"):
                return None
            return f
        if op == "upd":
            fb, fv = self.frame(a[0]), self.frame(a[2])
            return self.join([fb, fv], "an item assignment")
        if op == "arr":
            self.frame(a[0])
            return self.multi([self.frame(x) for x in a[1:]])
        if op == "set":
            return self.frame(a[1])
        if op == "lv":
            return self.frame(a[1])
        if op == "phi":
            return self.multi([self.frame(x) for x in a])
        if op == "fold":
            fs = [self.frame(a[3])]
            for cs, v in a[4]:
                sub = self.within(cs)
                fs.append(sub.frame(v))
                self.merge(sub)
            return self.multi(fs)
        if op == "last":
            fs = []
            for cs, v in a[2]:
                sub = self.within(cs)
                fs.append(sub.frame(v))
                self.merge(sub)
            return self.multi(fs)
        return None

    def within(self, conds):
        if not conds:
            return self
        f = Frames(self.conds + tuple(conds), self.types)
        return f

    def merge(self, sub):
        if sub is self:
            return
        for h in sub.hits:
            if h not in self.hits:
                self.hits.append(h)
        self.oks.extend(sub.oks)

    def argframes(self, pairs, skip=0):
        return [self.frame(v) for k, v in pairs[skip:]]

    def mcall(self, t):
        x, m, pairs = t.args
        if m in CRS_METHODS:
            for k, v in pairs:
                self.frame(v)
            return ("C", self.requested(t, x))
        if m == "project" and x.op != "ext":
            inv = arg(t, "inverse")
            if inv is None:
                inv = arg(t, 2)
            coords = [self.frame(v) for k, v in pairs if k not in ("inverse", "radians", 2, 3)]
            if inv is TRUE:
                self.require(self.multi(coords), x, "%r.project(inverse=True)" % x)
                return GEO
            if inv is None or inv is FALSE:
                self.require_geo(self.multi(coords), "%r.project()" % x)
                return ("C", x)
            return None
        if m == "transform":
            fr = [self.frame(v) for k, v in pairs]
            tgt = arg(t, "other")
            if tgt is None:
                tgt = arg(t, 0)
            coords = [self.frame(v) for k, v in pairs if v is not tgt]
            self.require(self.multi(coords), x, "%r.transform()" % x)
            return ("C", tgt) if tgt is not None else None
        if m in ("inverse", "forward") and x.op in ("attr", "param", "global", "item"):
            coords = [self.frame(v) for k, v in pairs if k not in ("radians",)]
            f = self.multi(coords)
            if self.geographic(x) is not False:
                self.require_geo(f, "%r.%s()" % (x, m))
            else:
                self.join([f], "%r.%s()" % (x, m))
            if m == "forward":
                return f if f is not None and self.geographic(x) is not False else None
            return None
        if m in ("search_within", "search_overlapping", "search") and x.op == "attr" \
                and x.args[1] in ("rtree", "quadtree"):
            self.require(self.multi(self.argframes(pairs)), self.crs_of(x.args[0]),
                         "the spatial index %r" % x)
            return None
        if m in PRESERVE:
            for k, v in pairs:
                self.frame(v)
            return self.frame(x)
        self.frame(x)
        for k, v in pairs:
            self.frame(v)
        return None

    def fcall(self, t):
        f, pairs = t.args
        fs = self.argframes(pairs)
        name = f.args[0] if f.op in ("ext", "func") else ""
        if f.op == "func":
            if name.startswith(KERNELS):
                return self.join(fs, name.split("karta.")[-1] + "()")
            return None
        if f.op == "ext":
            if name in NUMPY_NOFRAME or name.startswith(("math.", "osgeo", "os.")) or \
                    name in ("isinstance", "len", "hash", "range", "enumerate", "print", "str", "repr"):
                return self.frame(pairs[0][1]) if name == "enumerate" and pairs else None
            if name in ("zip", "tuple", "list", "iter", "sorted", "reversed", "set", "map", "next", "itertools.chain"):
                return self.multi(fs)
            return self.join(fs, name + "()")
        if f.op == "attr":
            return None
        return None

    def new(self, t):
        c, pairs = t.args
        name = c.args[0].split(".")[-1] if c.op == "class" else None
        crs = arg(t, "crs")
        for k, v in pairs:
            self.frame(v)
        if c.op == "typeof":
            name = self.geomtype(c.args[0]) or "Line"
        if name in GEOM_CLASSES:
            coords = arg(t, COORD_PARAM[name])
            if coords is None:
                coords = arg(t, 0)
            if coords is None:
                return None
            if coords.op == "list" and coords.args and all(self.holds_geom(e) for e in coords.args):
                return None
            f = self.frame(coords)
            if f is None:
                return None
            if crs is None:
                if any(k == "**" for k, _ in pairs):
                    return None
                crs = mk("global", "karta.crs", "Cartesian")
            self.require(f, crs, "%s(crs=...)" % name)
            return None
        if name in ("QuadTree", "RTree"):
            return None
        if name in ("RegularGrid",):
            return None
        return None

    def holds_geom(self, e):
        if e.op == "each":
            return self.holds_geom(e.args[3])
        return self.geomtype(e) is not None
