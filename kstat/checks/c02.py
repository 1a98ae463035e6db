"""C02: coordinates requested in a coordinate system are returned in that system, in the documented order."""
from ..frames import Frames, CRS_METHODS
from ..gframes import GFrames
from ..interp import Interp, Policy, Overflow
from ..loader import Program, probe
from ..poly import Norm, ratom, rconst
from ..report import Report
from ..results import concrete
from ..terms import T, mk, const, is_const, cval, walk, arg, NONE, children, TRUE, FALSE

TECHNIQUE = "coordinate-frame inference and axis/extremum typing of accessor results over path-wise value terms"
RULE = ("Every path of every accessor with an optional coordinate system is evaluated twice, with the system given and "
        "not given: the frame of the returned coordinates must be the requested system, respectively the object's own. "
        "Every component of a returned bounding box, extent or coordinate pair is typed with its axis (x or y) and "
        "extremum (minimum or maximum); the types must be those of the documented order.")
G = "karta.raster.grid"
SELF = mk("param", "self")
CRS = mk("param", "crs")
VECTOR = ("vertex", "vertices", "coords", "bbox", "extent", "_vertices_in", "_segment_tuples_in")
RASTER = ("coordinates", "bbox", "extent", "data_bbox", "data_extent", "center_llref", "corner_llref", "center_coords",
          "vertex_coords", "coordmesh")
LAYOUT = {"bbox": (("x", "min"), ("y", "min"), ("x", "max"), ("y", "max")),
          "data_bbox": (("x", "min"), ("y", "min"), ("x", "max"), ("y", "max")),
          "extent": (("x", "min"), ("x", "max"), ("y", "min"), ("y", "max")),
          "data_extent": (("x", "min"), ("x", "max"), ("y", "min"), ("y", "max")),
          "coords": (("x", None), ("y", None)), "center_llref": (("x", None), ("y", None)),
          "corner_llref": (("x", None), ("y", None)), "center_coords": (("x", None), ("y", None)),
          "vertex_coords": (("x", None), ("y", None)), "vertex": (("x", None), ("y", None))}


class Pol(Policy):
    max_depth = 4
    max_states = 600

    def __init__(self, entry):
        self.entry = entry

    def inline(self, i, f, recv, d):
        if f.module.lang != "py" or f.module.name in ("karta.geodesy", "karta.vector.table", "karta.crs"):
            return False
        if f.name in CRS_METHODS or f.name in RASTER or f.name in VECTOR:
            return f.name.startswith("_") or f.name in ("center_llref", "corner_llref", "center_coords", "vertex_coords") \
                or self.is_super(i, f)
        return not f.name.startswith("_as_nested") and f.name not in ("transform_x", "values")

    def is_super(self, i, f):
        return f.name == self.entry.name and f is not self.entry


# ------------------------------------------------------------- axis and extremum

class Axes(object):
    def __init__(self, transform_of=(), given=()):
        self.memo = {}
        self.mixed = False
        self.given = dict(given)

    def __call__(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = (None, None)
        try:
            r = self.go(t)
        except RecursionError:
            r = (None, None)
        self.memo[t] = r
        return r

    def merge(self, rs):
        rs = [r for r in rs if r is not None]
        ax = {r[0] for r in rs}
        ex = {r[1] for r in rs}
        return (ax.pop() if len(ax) == 1 else None, ex.pop() if len(ex) == 1 else None)

    def seq(self, t):
        """components of a sequence value, or None"""
        if t in self.given:
            return self.given[t]
        if t.op in ("tuple", "list") and not any(a.op in ("each", "star") for a in t.args):
            return [self(a) for a in t.args]
        if t.op == "attr" and t.args[1] in ("_transform", "transform"):
            return [("x", None), ("y", None)] * 3
        if t.op == "attr" and t.args[1] in ("origin", "resolution", "skew"):
            return [("x", None), ("y", None)]
        if t.op == "attr" and t.args[1] == "_vertex":
            return [("x", None), ("y", None)]
        if t.op == "mcall":
            n = t.args[1]
            if n in LAYOUT and n != "coords":
                return list(LAYOUT[n])
            if n in ("vectors", "coords", "vertex"):
                return [("x", None), ("y", None)]
            if n in ("transform",):
                return [("x", None), ("y", None)]
            if n == "project":
                return [("x", None), ("y", None)]
        if t.op == "call":
            f = t.args[0]
            n = str(f.args[0]).split(".")[-1]
            if f.op in ("func", "ext") and n == "bbox":
                return list(LAYOUT["bbox"])
            if n == "_reproject":
                return [("x", None), ("y", None)]
            if n in ("tuple", "list", "numpy.array", "array", "asarray") and len(t.args[1]) == 1:
                return self.seq(t.args[1][0][1])
            if n == "map" and len(t.args[1]) == 2:
                return self.seq(t.args[1][1][1])
        if t.op == "item" and t.args[1].op == "slice":
            b = self.seq(t.args[0])
            if b is not None and all(is_const(x) for x in t.args[1].args):
                return b[slice(*[cval(x) for x in t.args[1].args])]
        if t.op == "elem":
            b = t.args[0]
            if b.op == "list" and len(b.args) == 1 and b.args[0].op == "each":
                return self.seq(b.args[0].args[3])
            if b.op in ("list", "tuple") and b.args and all(x.op not in ("each", "star") for x in b.args):
                ss = [self.seq(x) for x in b.args]
                if all(s is not None for s in ss) and len({len(s) for s in ss}) == 1:
                    return [self.merge(col) for col in zip(*ss)]
        if t.op == "upd":
            b = self.seq(t.args[0])
            return b
        return None

    def elements(self, t):
        """types of the elements of an iterable of coordinates"""
        if t.op in ("list", "tuple", "set", "gen"):
            out = []
            for a in t.args:
                if a.op == "each":
                    out.append(self(a.args[3]))
                elif a.op == "star":
                    out += self.elements(a.args[0])
                else:
                    out.append(self(a))
            return out
        return [self(t)]

    def flat(self, vs):
        out = []
        for v in vs:
            if v.op in ("list", "tuple", "set", "gen"):
                for a in v.args:
                    out += self.flat([a.args[0]]) if a.op == "star" else [a]
            else:
                out.append(v)
        return out

    def go(self, t):
        o = t.op
        if o == "mcall" and t.args[1] in ("getX", "getY"):
            return (t.args[1][-1].lower(), None)
        if o == "item" and t.args[0].op == "mcall" and t.args[0].args[1] == "transform" and is_const(t.args[1]):
            vs = [v for k, v in t.args[0].args[2]]
            k = cval(t.args[1])
            if len(vs) == 3 and k in (0, 1):
                return ("xy"[k], self(vs[k + 1])[1])
        if o == "item":
            b = self.seq(t.args[0])
            k = t.args[1]
            if b is not None and is_const(k) and isinstance(cval(k), int) and -len(b) <= cval(k) < len(b):
                return b[cval(k)]
            if b is None and t.args[0].op not in ("attr",):
                return (self(t.args[0])[0], None)
            return (None, None)
        if o == "attr" and t.args[1] in ("x", "y"):
            return (t.args[1], None)
        if o == "bin":
            k, a, b = t.args
            x, y = self(a), self(b)
            if k in ("+", "-"):
                if x[0] and y[0] and x[0] != y[0]:
                    return (None, None)
                ex = x[1] or y[1]
                if x[1] and y[1] and x[1] != y[1]:
                    ex = None
                return (x[0] or y[0], ex)
            if k == "%":
                return x
            if k in ("*", "/"):
                if x[0] and y[0]:
                    return (None, None)
                return (x[0] or y[0], None)
            return (None, None)
        if o == "un":
            return (self(t.args[1])[0], None)
        if o == "call":
            f = t.args[0]
            n = str(f.args[0]).split(".")[-1] if f.args else ""
            vs = [v for k, v in t.args[1] if isinstance(k, int)]
            if n in ("min", "max", "amin", "amax", "fmin", "fmax", "minimum", "maximum", "nanmin", "nanmax"):
                es = []
                for v in vs:
                    es += self.elements(v)
                want = "min" if "in" in n else "max"
                inner = {e[1] for e in es}
                ax = {e[0] for e, v in zip(es, self.flat(vs)) if v.op != "lv"}
                if {"x", "y"} <= ax:
                    self.mixed = True
                return (ax.pop() if len(ax) == 1 else None, want)
            if n in ("abs", "float", "asarray", "array", "float64", "round") and vs:
                return self(vs[0])
            return (None, None)
        if o == "mcall":
            n = t.args[1]
            if n in ("min", "max"):
                return (self(t.args[0])[0], n)
            if n in ("ravel", "flatten", "copy", "astype", "tolist", "item"):
                return self(t.args[0])
            return (None, None)
        if o in ("elem",):
            return self.merge(self.elements(t.args[0])) if t.args[0].op in ("list", "tuple") else \
                (self(t.args[0])[0], None)
        if o == "fold":
            it, d, lv, init, ups = t.args
            rs = []
            for cs, v in ups:
                r = self(v)
                if v is lv or r == (None, None) and v.op == "lv":
                    continue
                rs.append(r)
            return self.merge(rs) if rs else self(init)
        if o == "last":
            return self.merge([self(v) for cs, v in t.args[2]])
        if o == "phi":
            return self.merge([self(a) for a in t.args])
        if o == "upd":
            return (self.merge([self(t.args[2])] + ([self(t.args[0])] if self(t.args[0])[0] else [])))
        if o == "ite":
            return self.merge([self(a) for a in t.args[1:]])
        if o == "arr":
            vs = [a.args[3] if a.op == "each" else a for a in t.args[1:] if isinstance(a, T)]
            return self.merge([self(a.args[1] if a.op == "set" else a) for a in vs])
        return (None, None)


def nanlike(t):
    return is_const(t) or (t.op == "ext" and str(t.args[0]).split(".")[-1].lower() in ("nan", "inf")) or \
        (t.op == "call" and str(t.args[0].args[0]) == "float" and all(is_const(v) for k, v in t.args[1]))


def layout(rep, cname, f, v, where, lay=None):
    lay = lay or LAYOUT.get(f.name)
    if lay is None:
        return
    ax = Axes()
    got = None
    if v.op in ("tuple", "list"):
        if len(v.args) == len(lay) and not any(a.op in ("each", "star") for a in v.args):
            if all(nanlike(a) for a in v.args):
                return
            got = [ax(a) for a in v.args]
        elif not any(a.op in ("each", "star") for a in v.args) and f.name not in ("vertex",):
            rep.bad("layout", "%s.%s" % (cname, f.name), "returns %d values instead of %d" % (len(v.args), len(lay)), where)
            return
    else:
        s = ax.seq(v)
        got = s if s is not None and len(s) == len(lay) else None
    if ax.mixed:
        rep.bad("axis-mix", "%s.%s" % (cname, f.name), "a minimum or maximum is taken over x and y values together", where)
    if got is None:
        rep.undec("%s.%s: result layout not recognised" % (cname, f.name))
        return
    for k, (g, w) in enumerate(zip(got, lay)):
        if g[0] and g[0] != w[0]:
            rep.bad("axis-order", "%s.%s[%d]" % (cname, f.name, k), "component %d is a value along %s where the documented "
                    "order has %s%s" % (k, g[0], w[0], w[1] or ""), where)
        elif w[1] and g[1] and g[1] != w[1]:
            rep.bad("extremum-order", "%s.%s[%d]" % (cname, f.name, k), "component %d is the %simum where the documented "
                    "order has %s%s" % (k, g[1], w[0], w[1]), where)
        elif g[0] and (g[1] or not w[1]):
            rep.ok("%s.%s component %d is %s%s" % (cname, f.name, k, w[0], w[1] or ""), where)
        else:
            rep.undec("%s.%s component %d: %s" % (cname, f.name, k, g))


def accessor(p, rep, c, f, types):
    owncrs = mk("attr", SELF, "crs")
    modes = [None]
    takes = "crs" in f.pos + f.kwonly
    if takes:
        modes = [True, False]
        if f.name.startswith("_"):
            modes = [True]
    for given in modes:
        conds = ()
        if takes:
            conds = ((mk("isnone", CRS), not given),)
        i = Interp(p, Pol(f))
        try:
            paths = i.run(f, c, conds=conds)
        except Overflow:
            rep.undec("%s.%s: too many paths" % (c.name, f.name))
            continue
        except Exception as e:
            rep.undec("%s.%s: %s %s" % (c.name, f.name, type(e).__name__, e))
            continue
        want = CRS if given else owncrs
        for path in paths:
            if path.kind != "return" or path.value is None or path.value is NONE:
                continue
            if contradictory(path.conds):
                continue
            v = i.reify(path.value, path.state)
            fr = GFrames(path.conds, types)
            flat = [v]
            if v.op in ("tuple", "list"):
                flat = [a.args[3] if a.op == "each" else a for a in v.args]
            for part in flat:
                sub = fr
                g = sub.frame(part)
                if g is None:
                    if not nanlike(part):
                        rep.undec("%s.%s: frame of the result unknown" % (c.name, f.name))
                    continue
                n0 = len(fr.hits)
                fr.require(g, want, "the caller of %s.%s" % (c.name, f.name))
                if len(fr.hits) == n0:
                    rep.ok("%s.%s(%s): result in the %s system" % (c.name, f.name, "crs" if given else "",
                                                                "requested" if given else "own"), path.where)
            for rule, msg in fr.hits:
                rep.bad(rule, "%s.%s(%s)" % (c.name, f.name, "crs" if given else ""), msg, path.where)
            layout(rep, c.name, f, v, path.where)


def contradictory(conds):
    seen = {}
    for t, b in conds:
        if seen.setdefault(t, b) != b:
            return True
    return False


# ------------------------------------------------------------- coordinate generators

def generator(p, rep):
    m = p.modules.get("karta.raster.coordgen")
    c = m.classes.get("CoordinateGenerator") if m else None
    if c is None or c.lookup("__init__") is None or c.lookup("__getitem__") is None:
        rep.undec("CoordinateGenerator: not found")
        return
    rep.fn("CoordinateGenerator.__getitem__")
    init = c.lookup("__init__")
    names = init.pos[1:5]
    if len(names) != 4:
        rep.undec("CoordinateGenerator.__init__: signature")
        return
    f = probe(m, "def probe(self, transform, size, src, dst, i, j):\n    self.__init__(%s)\n"
              "    return self.__getitem__((i, j))" % ", ".join("%s=%s" % (n, v) for n, v in zip(
                  names, ("transform", "size", "src", "dst"))), c)

    class P(Policy):
        max_depth = 5
        max_states = 3000

        def inline(self, i, f, recv, d):
            return f.module.name == "karta.raster.coordgen"
    i = Interp(p, P())
    src, dst, tr = mk("param", "src"), mk("param", "dst"), mk("param", "transform")

    class F(Frames):
        def _frame(self, t):
            if t is tr:
                return ("C", src)
            if t.op == "slice":
                return None
            return super(F, self)._frame(t)

        def within(self, conds):
            return F(self.conds + tuple(conds), self.types) if conds else self
    for path in i.run(f, c):
        if path.kind != "return" or path.value is None:
            continue
        v = i.reify(path.value, path.state)
        fr = F(path.conds)
        g = fr.frame(v)
        if g is None:
            rep.undec("CoordinateGenerator: frame unknown")
            continue
        fr.require(g, dst, "the caller of CoordinateGenerator[]")
        for rule, msg in fr.hits:
            rep.bad(rule, "CoordinateGenerator.__getitem__", msg, path.where)
        if not fr.hits:
            rep.ok("CoordinateGenerator[]: result in the output system", path.where)
        ax = Axes()
        ax.given[tr] = [("x", None), ("y", None)] * 3
        got = [ax(a) for a in v.args] if v.op == "tuple" and len(v.args) == 2 else ax.seq(v)
        if v.op == "mcall" and v.args[1] == "transform":
            vs = [a for k, a in v.args[2]]
            if len(vs) == 3:
                got = [ax(a) for a in vs[1:]]
        for k, (g, w) in enumerate(zip(got or (), "xy")):
            if g[0] and g[0] != w:
                rep.bad("axis-order", "CoordinateGenerator[%d]" % k, "component %d is a value along %s instead of %s"
                        % (k, g[0], w), path.where)
            elif g[0]:
                rep.ok("CoordinateGenerator[] component %d is along %s" % (k, w), path.where)


# ------------------------------------------------------------- compiled bounding boxes

def kernels(p, rep):
    for mod in ("karta.vector.vectorgeo", "karta.vector.dateline"):
        f = p.modules[mod].funcs.get("bbox") if mod in p.modules else None
        if f is None:
            rep.undec("%s.bbox: not found" % mod)
            continue
        rep.fn(f.qual)
        cs = mk("param", f.pos[0])

        class P(Policy):
            max_depth = 3
            max_states = 3000

            def inline(self, i, g, recv, d):
                return g.module.name == mod
        i = Interp(p, P())
        closing = {}
        short = ".".join(mod.split(".")[-1:] + ["bbox"])
        for path in i.run(f):
            if path.kind != "return" or path.value is None:
                continue
            v = i.reify(path.value, path.state)
            layout(rep, short.split(".")[0], f, v, path.where, LAYOUT["bbox"])
            if v.op in ("tuple", "list") and len(v.args) == 4 and not all(nan(a) for a in v.args):
                for k, a in enumerate(v.args):
                    cover(rep, short, cs, a, k, path.where, path.conds, closing)
                if short.startswith("dateline"):
                    unwrapped(rep, short, v, path)
        ends = closing.get("ring", set()) | closing.get("any", set())
        if ends:
            if max(ends) < 1:
                rep.bad("closing-segment", short, "the segment that closes a ring is left out of its bounding box",
                        f.where)
            else:
                rep.ok("%s: closing segment of rings included" % short, f.where)


def turns(t):
    """an accumulated number of full turns"""
    return any(x.op == "lv" for x in walk(t)) and any(is_const(x) and cval(x) in (360, 360.0) for x in walk(t))


def unwrapped(rep, short, v, path):
    """longitudes of every vertex enter the bounding box on one continuous branch"""
    for k in (0, 2):
        for fold in (x for x in walk(v.args[k]) if x.op == "fold"):
            for cs, val in fold.args[4]:
                if val.op != "call" or not any(n in str(val.args[0].args[0]) for n in ("min", "max")):
                    continue
                for q, a in val.args[1]:
                    xs = [x for x in walk(a) if x.op == "mcall" and x.args[1] == "getX"]
                    if not xs or a is fold.args[2]:
                        continue
                    n = Norm(lambda x: "x" if x.op == "mcall" and x.args[1] == "getX" else
                             "r" if x.op in ("lv", "fold") else "q" if x.op == "call" else None)
                    e = n(a)
                    if e.same(ratom("x")):
                        rep.bad("longitude-branch", "%s[%d]" % (short, k), "a longitude enters the bounding box without "
                                "the turns accumulated at earlier dateline crossings: vertices beyond a crossing are "
                                "left out", path.where)
                    else:
                        rep.ok("%s[%d]: longitudes unwrapped" % (short, k), path.where)


def nan(t):
    return t.op == "ext" and "nan" in str(t.args[0]).lower()


def cover(rep, short, cs, t, k, where, conds=(), closing=None):
    closing = {} if closing is None else closing
    """the loop of a bounding box visits every vertex"""
    for fold in (x for x in walk(t) if x.op == "fold"):
        it = fold.args[0]
        if it.op != "while" and not (it.op == "call" and "range" in str(it.args[0].args[0])):
            continue
        idx = {x.args[2][0][1] for x in walk(fold) if x.op == "mcall" and x.args[1] in ("getX", "getY") and x.args[2]
               and x.args[0] is cs}
        fixed = {cval(x) for x in idx if is_const(x)}
        n = Norm(lambda x: "n" if x.op == "len" and x.args[0] is cs or
                 x.op == "attr" and x.args[0] is cs and x.args[1] == "length" else
                 "i" if x.op == "lv" or x.op == "elem" and x.args[0] is it else None)
        if it.op == "call":
            a = [v for q, v in it.args[1]]
            lo = rconst(0) if len(a) == 1 else n(a[0])
            hi = n(a[0] if len(a) == 1 else a[1])
        else:
            (c, b), = it.args[0][:1] if len(it.args[0]) == 1 else ((None, None),)
            if c is None or c.op != "cmp":
                continue
            sides = [x for x in c.args[1:]]
            lv = [x for x in sides if x.op == "lv"]
            if len(lv) != 1 or not is_const(lv[0].args[1]):
                continue
            if not (c.args[0] == "==" and not b or c.args[0] == "<" and b and sides[0] is lv[0]):
                continue
            lo = n(lv[0].args[1])
            hi = n(sides[1] if sides[0] is lv[0] else sides[0])
        offs = set()
        for x in idx:
            if not is_const(x):
                e = n(x)
                for d in range(-2, 3):
                    if e.same(ratom("i") + rconst(d)):
                        offs.add(d)
        if not offs:
            continue
        first = last = None
        for d in range(-3, 4):
            if (lo + rconst(min(offs))).same(rconst(d)):
                first = d
            if (hi + rconst(max(offs))).same(ratom("n") + rconst(d)):
                last = d
        if first is None or last is None:
            rep.undec("%s[%d]: loop bounds" % (short, k))
            continue
        miss = [j for j in range(0, first) if j not in fixed]
        if short.startswith("dateline") and last is not None:
            ring = [b for c, b in conds if c.op == "attr" and c.args[0] is cs and c.args[1] == "ring"]
            closing.setdefault("ring" if True in ring else "any" if not ring else "open", set()).add(last)
        if miss or last < 0:
            rep.bad("vertex-skipped", "%s[%d]" % (short, k), "the bounding box does not look at %s" % (
                "vertex %d" % miss[0] if miss else "the last %d vertices" % -last), where)
        else:
            rep.ok("%s[%d]: every vertex visited" % (short, k), where)


def check():
    rep = Report("C02", RULE)
    rep.minimum = 30
    rep.assumptions = ["kernel bounding boxes are (xmin, ymin, xmax, ymax) (analysed with the compiled kernels)",
                       "CRS.transform(other, x, y) returns (x, y) in other (C18)"]
    p = Program()
    for c in concrete(p):
        types = {SELF: c.name}
        for n in VECTOR:
            f = c.lookup(n)
            if f is None or not f.pos or f.pos[0] != "self":
                continue
            rep.fn("%s.%s" % (c.name, n))
            accessor(p, rep, c, f, types)
    g = p.modules[G].classes.get("RegularGrid") if G in p.modules else None
    if g is not None:
        for n in RASTER:
            f = g.lookup(n)
            if f is None or not f.pos or f.pos[0] != "self":
                continue
            rep.fn("RegularGrid.%s" % n)
            accessor(p, rep, g, f, {})
    generator(p, rep)
    try:
        kernels(p, rep)
    except Exception as e:
        rep.undec("kernels: %s %s" % (type(e).__name__, e))
    return rep
