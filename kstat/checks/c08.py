"""C08: cell indices and coordinates are mutually inverse; rows count along y, columns along x."""
from fractions import Fraction
from ..loader import Program
from ..report import Report
from ..results import returned
from ..interp import Interp
from ..poly import Norm, Rat, rconst, ratom
from ..terms import T, mk, is_const, cval, walk, arg, subst, NONE
from ..units import Units, clash, name, X, Y, R, C, NUM, Seq
from ..rasterspec import GridPolicy, PARAMS, RESULTS, CALLS, SHAPED, qname, seeder, all_terms

TECHNIQUE = "dimension inference (x, y, rows, columns) and rational normal forms of coordinate formulas"
RULE = ("In the raster package every sum, comparison, extreme, index, array shape and call argument joins only "
        "quantities of one dimension among x, y, rows and columns (axis 0 is rows, axis 1 columns); every coordinate "
        "formula built on the grid origin has the form x = T0 + c*T2 + r*T4 with the paired y = T1 + r*T3 + c*T5; "
        "cell centres, vertices, lower-left references, generated coordinates, extents and bounding boxes are those "
        "formulas at the cell offsets they stand for; positions composed with the centre formula give back the "
        "indices, and integer indices are rounded to the nearest.")
MODS = ("karta.raster.grid", "karta.raster.misc", "karta.raster.coordgen", "karta.raster.read", "karta.raster._aai")
SKIP = ("to_geotiff", "to_gtiff")
PYX = "karta.raster.crfuncs"


def functions(p, mods=MODS):
    for m in mods:
        M = p.modules.get(m)
        if M is None:
            continue
        for f in M.funcs.values():
            yield None, f
        for c in M.classes.values():
            for f in c.methods.values():
                yield c, f


def tr_base(t):
    """the object whose transform item `t` is"""
    return t.op == "item" and is_const(t.args[1]) and isinstance(cval(t.args[1]), int) and \
        0 <= cval(t.args[1]) < 6 and (
            (t.args[0].op == "attr" and t.args[0].args[1] in ("transform", "_transform")) or
            (t.args[0].op == "param" and t.args[0].args[0] in ("transform", "T")))


class GridNorm(object):
    """Rational normal forms in which transform items are atoms T0..T5 and sizes ny, nx."""
    def __init__(self, selfonly=True):
        self.selfonly = selfonly
        self.norm = Norm(self.atom)
        self.axis = {}

    def atom(self, t):
        if t.op == "item":
            b, k = t.args
            if is_const(k) and isinstance(cval(k), int):
                if b.op == "attr" and b.args[1] in ("transform", "_transform") and self.own(b.args[0]):
                    return "T%d" % (cval(k) % 6)
                if b.op == "param" and b.args[0] in ("transform", "T"):
                    return "T%d" % (cval(k) % 6)
                if b.op == "attr" and b.args[1] == "size" and cval(k) in (0, 1, -1, -2) and self.own(b.args[0]):
                    return ("ny", "nx")[cval(k)]
                if b.op == "attr" and b.args[1] in ("origin", "resolution", "skew") and self.own(b.args[0]) and \
                        cval(k) in (0, 1):
                    return "T%d" % ({"origin": 0, "resolution": 2, "skew": 4}[b.args[1]] + cval(k))
        return None

    def own(self, t):
        if t.op == "param":
            return t.args[0] == "self"
        if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] == "bands":
            return self.own(t.args[0].args[0])
        return not self.selfonly and t.op != "new"

    def __call__(self, t):
        return self.norm(t)


def at(k):
    return ratom(k)


HALF = rconst(Fraction(1, 2))


def xform(c, r):
    return at("T0") + c * at("T2") + r * at("T4")


def yform(c, r):
    return at("T1") + r * at("T3") + c * at("T5")


# ---------------------------------------------------------------- arrays as functions of (row, column)

class Field(object):
    """Value of a 2-D coordinate array at row r and column c."""
    def __init__(self, gn):
        self.gn = gn
        self.lengths = []
        self.bad = None

    def read(self, t):
        """Rat in the atoms r (axis 0) and c (axis 1), or None"""
        if t.op == "arr" and len(t.args) == 2 and t.args[1].op == "each":
            it, depth, conds, body = t.args[1].args
            if body.op != "set":
                return None
            key, val = body.args
            it = strip_int(it)
            if not (it.op == "call" and it.args[0].op in ("ext", "builtin") and it.args[0].args[0] in ("range", "numpy.arange")):
                return None
            ax = None
            parts = key.args if key.op == "tuple" else (key,)
            for n, k in enumerate(parts):
                if k.op == "elem" and k.args[0] is it:
                    ax = n
            if ax is None or len(parts) > 2 or (len(parts) == 2 and not full_slice(parts[1 - ax])):
                return None
            env = {}
            self.full(it, ax)
            return self.expr(val, {"elem": (it, "rc"[ax])}, "rc"[1 - ax])
        return self.expr(t, {}, None)

    def full(self, rng, ax):
        args = [v for k, v in rng.args[1] if isinstance(k, int)]
        n = args[0] if len(args) == 1 else args[1] if len(args) >= 2 else None
        lo = self.gn(args[0]).const() if len(args) > 1 else 0
        st = self.gn(args[2]).const() if len(args) > 2 else 1
        self.lengths.append((ax, self.gn(n) if n is not None else None, lo, st))

    def expr(self, t, env, veclabel):
        """veclabel: axis letter of a plain 1-d vector in this context"""
        me = self

        def isrange(x):
            return x.op == "call" and x.args[0].op in ("ext", "builtin") and \
                x.args[0].args[0] in ("numpy.arange", "range")

        def shaped(x):
            """(vector, axis letter) of an index vector with explicit axis"""
            if x.op == "item" and x.args[1].op == "tuple" and len(x.args[1].args) == 2:
                k = x.args[1].args
                if is_none(k[1]) and full_slice(k[0]):
                    return x.args[0], "r"
                if is_none(k[0]) and full_slice(k[1]):
                    return x.args[0], "c"
            if x.op == "mcall" and x.args[1] == "reshape":
                a = [v for _, v in x.args[2]]
                if len(a) == 1 and a[0].op == "tuple":
                    a = a[0].args
                if len(a) == 2 and is_const(a[1]) and cval(a[1]) == 1:
                    return x.args[0], "r"
                if len(a) == 2 and is_const(a[0]) and cval(a[0]) == 1:
                    return x.args[0], "c"
            if x.op == "item" and is_const(x.args[1]) and x.args[0].op == "call" and x.args[0].args[0].op == "ext" \
                    and x.args[0].args[0].args[0] == "numpy.meshgrid":
                kw = {k: v for k, v in x.args[0].args[1]}
                n = cval(x.args[1])
                if n not in (0, 1) or n not in kw:
                    return None
                ij = "indexing" in kw and is_const(kw["indexing"]) and cval(kw["indexing"]) == "ij"
                if "indexing" in kw and not is_const(kw["indexing"]):
                    return None
                return kw[n], ("rc" if ij else "cr")[n]
            return None

        def atom(x):
            a = self.gn.atom(x)
            if a is not None:
                return a
            if "elem" in env and x.op == "elem" and x.args[0] is env["elem"][0]:
                return env["elem"][1]
            if isrange(x):
                if veclabel is None:
                    return "c" if False else None
                me.full(x, "rc".index(veclabel))
                return veclabel
            s = shaped(x)
            if s is not None:
                sub = me.expr(s[0], env, s[1])
                return sub
            return None

        return Norm(atom)(t)


def strip_int(t):
    return t


def is_none(t):
    return t is NONE or (t.op == "ext" and t.args[0] == "numpy.newaxis")


def full_slice(t):
    return t.op == "slice" and all(x is NONE for x in t.args)


def pure(r, allowed):
    return r is not None and r.atoms() <= set(allowed)


BASE = ["T%d" % k for k in range(6)] + ["ny", "nx", "r", "c"]


def pair_value(v):
    return v.args if v.op in ("tuple", "list") and len(v.args) == 2 else None


def accessor(p, rep, cls, fname, cx, cy, size):
    """arrays of coordinates over all cells"""
    f = cls.lookup(fname)
    if f is None:
        return
    rep.fn("RegularGrid." + fname)
    for v, conds, where, path, i in returned(p, cls, f, policy=GridPolicy(), rep=rep):
        if v.op == "mcall":
            continue
        xy = pair_value(v)
        if xy is None:
            rep.undec("%s: result is not a pair" % fname)
            continue
        for k, (t, want) in enumerate(zip(xy, (cx, cy))):
            fd = Field(GridNorm())
            got = fd.read(t)
            if not pure(got, BASE):
                rep.undec("%s: coordinate array not in affine form" % fname)
                continue
            if got.same(want):
                rep.ok("%s %s equals the affine formula" % (fname, "xy"[k]), where)
            else:
                rep.bad("cell-coordinates", "RegularGrid." + fname, "%s coordinates are %r, expected %r"
                        % ("xy"[k], got, want), where)
            for ax, n, lo, st in fd.lengths:
                if n is None or not pure(n, BASE):
                    continue
                if not n.same(size[ax]) or (lo is not None and lo != 0) or (st is not None and st != 1):
                    rep.bad("cell-range", "RegularGrid." + fname,
                            "axis %d runs over %r indices from %s, expected %r" % (ax, n, lo, size[ax]), where)
                else:
                    rep.ok("%s covers axis %d" % (fname, ax), where)


def reference(p, rep, cls, fname, off):
    f = cls.lookup(fname)
    if f is None:
        return
    rep.fn("RegularGrid." + fname)
    for v, conds, where, path, i in returned(p, cls, f, policy=GridPolicy(), rep=rep):
        gn = GridNorm()
        for k, form in enumerate((xform, yform)):
            got = gn(mk("item", v, _k(k)))
            if v.op in ("tuple", "list"):
                got = gn(v.args[k])
            elif v.op == "item" and v.args[1].op == "slice":
                lo = v.args[1].args[0]
                lo = 0 if lo is NONE else cval(lo) if is_const(lo) else None
                if lo is None:
                    continue
                got = gn(mk("item", v.args[0], _k(lo + k)))
            if not pure(got, BASE):
                rep.undec("%s: not in affine form" % fname)
                continue
            want = form(rconst(off), rconst(off))
            if got.same(want):
                rep.ok("%s %s" % (fname, "xy"[k]), where)
            else:
                rep.bad("reference-point", "RegularGrid." + fname, "%s is %r, expected %r" % ("xy"[k], got, want), where)


def _k(n):
    from ..terms import const
    return const(n)


# ---------------------------------------------------------------- generated coordinates

def generator(p, rep):
    c = p.cls("karta.raster.coordgen.CoordinateGenerator")
    f = c and c.lookup("__getitem__")
    if f is None or len(f.pos) < 2:
        return
    rep.fn("CoordinateGenerator.__getitem__")
    key = mk("param", f.pos[1])
    for v, conds, where, path, i in returned(p, c, f, policy=GridPolicy(), rep=rep):
        xy = pair_value(v)
        if xy is None and v.op in ("call", "mcall"):
            a = [x for k, x in v.args[1 if v.op == "call" else 2]]
            xy = tuple(a[-2:]) if len(a) >= 2 else None
        if xy is None:
            rep.undec("CoordinateGenerator.__getitem__: result is not a pair")
            continue
        trouble = []

        def index(x):
            """'r' / 'c' for a value made of the row / column key"""
            if x.op == "item" and x.args[0] is key and is_const(x.args[1]) and cval(x.args[1]) in (0, 1):
                return "rc"[cval(x.args[1])]
            if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] == "numpy.arange":
                a = [y for _, y in x.args[1]]
                if len(a) == 1 and a[0].op == "star":
                    a = a[0].args[0]
                    if a.op == "mcall" and a.args[1] == "indices" and a.args[2]:
                        k = index(a.args[0])
                        n = a.args[2][0][1]
                        if k is not None and n.op == "item" and n.args[0].op == "attr" and \
                                n.args[0].args[1] == "size" and is_const(n.args[1]):
                            if cval(n.args[1]) != "rc".index(k):
                                trouble.append("slice of axis %d is resolved against size[%s]"
                                               % ("rc".index(k), cval(n.args[1])))
                        return k
            return None

        def atom(x):
            if x.op == "item" and is_const(x.args[1]) and x.args[0].op == "attr" and \
                    x.args[0].args[1] in ("transform", "_transform"):
                return "T%d" % cval(x.args[1])
            k = index(x)
            if k is not None:
                return k
            if x.op == "item" and is_const(x.args[1]) and x.args[0].op == "call" and x.args[0].args[0].op == "ext" \
                    and x.args[0].args[0].args[0] == "numpy.meshgrid":
                kw = {a: b for a, b in x.args[0].args[1]}
                n = cval(x.args[1])
                if n in kw and n in (0, 1) and ("indexing" not in kw or is_const(kw["indexing"])):
                    ij = "indexing" in kw and cval(kw["indexing"]) == "ij"
                    axis = ("rc" if ij else "cr")[n]
                    k = index(kw[n])
                    if k is not None and k != axis:
                        trouble.append("%s indices are laid out along axis %d"
                                       % ("row" if k == "r" else "column", "rc".index(axis)))
                    return k
            return None
        nm = Norm(atom)
        for k, form in enumerate((xform, yform)):
            got = nm(xy[k])
            if not pure(got, BASE):
                rep.undec("CoordinateGenerator.__getitem__: %s not in affine form" % "xy"[k])
                continue
            want = form(at("c") + HALF, at("r") + HALF)
            if got.same(want):
                rep.ok("generated %s" % "xy"[k], where)
            else:
                rep.bad("generated-coordinates", "CoordinateGenerator.__getitem__",
                        "%s is %r, expected %r" % ("xy"[k], got, want), where)
        for m in trouble:
            rep.bad("generated-coordinates", "CoordinateGenerator.__getitem__", m, where)


# ---------------------------------------------------------------- extents

MINF = ("min", "numpy.min", "numpy.minimum", "numpy.amin", "numpy.fmin")
MAXF = ("max", "numpy.max", "numpy.maximum", "numpy.amax", "numpy.fmax")


class Hull(object):
    """normal form of nested extremes: ('min'|'max', [polynomials])"""
    def __init__(self, gn):
        self.gn = gn

    def __call__(self, t):
        """-> ('min'/'max'/None, [Rat]) or None"""
        if t.op == "call" and t.args[0].op in ("ext", "builtin") and t.args[0].args[0] in MINF + MAXF:
            kind = "min" if t.args[0].args[0] in MINF else "max"
            vals = []
            args = [v for k, v in t.args[1] if isinstance(k, int)]
            for a in args:
                vals.extend(a.args if a.op in ("list", "tuple") else [a])
            subs = [self(x) for x in vals]
            if any(s is None for s in subs):
                return None
            same = [s for s in subs if s[0] in (None, kind)]
            other = [s for s in subs if s[0] not in (None, kind)]
            out = []
            for s in same:
                out.extend(s[1])
            for s in other:
                # min(min S, max S) = min S
                if not any(covers(x[1], s[1]) for x in same):
                    return None
            return (kind, out)
        if t.op == "bin" and t.args[0] in ("+", "-"):
            a, b = self(t.args[1]), self(t.args[2])
            if a is None or b is None:
                return None
            if t.args[0] == "-":
                b = ({"min": "max", "max": "min", None: None}[b[0]], [-x for x in b[1]])
            if a[0] and b[0] and a[0] != b[0]:
                return None
            if len(a[1]) * len(b[1]) > 64:
                return None
            return (a[0] or b[0], [x + y for x in a[1] for y in b[1]])
        r = self.gn(t)
        return (None, [r])


def covers(a, b):
    return any(x.same(y) for x in a for y in b)


def evalr(r, env):
    def pv(q):
        s = Fraction(0)
        for m, c in q.items():
            for k, e in m:
                c = c * env[k] ** e
            s += c
        return s
    return pv(r.n) / pv(r.d)


def coefs(poly, k, a, b, o):
    """poly = To + A*Ta + B*Tb : evaluate A and B (as functions of nx, ny)"""
    env = {x: Fraction(0) for x in BASE}
    out = []
    for nx, ny in ((1, 1), (2, 5), (7, 3)):
        env["nx"], env["ny"] = Fraction(nx), Fraction(ny)
        z = dict(env)
        base = evalr(poly, z)
        z[o] = Fraction(1)
        if base != 0 or evalr(poly, z) != 1:
            return None
        z = dict(env)
        z[a] = Fraction(1)
        A = evalr(poly, z)
        z[a] = Fraction(0)
        z[b] = Fraction(1)
        B = evalr(poly, z)
        out.append((nx, ny, A, B))
    return out


def corner_sets(polys, k):
    o, a, b = (("T0", "T2", "T4"), ("T1", "T5", "T3"))[k]
    rows = []
    for q in polys:
        if not pure(q, BASE):
            return None
        c = coefs(q, k, a, b, o)
        if c is None:
            return None
        # verify linearity
        lin = True
        rows.append(c)
    return rows


def extent(p, rep, cls):
    f = cls.lookup("extent")
    if f is None:
        return
    rep.fn("RegularGrid.extent")
    ref = mk("param", f.pos[1]) if len(f.pos) > 1 else None
    crs = mk("param", f.pos[2]) if len(f.pos) > 2 else None
    for v, conds, where, path, i in returned(p, cls, f, policy=GridPolicy(), rep=rep):
        if v.op not in ("tuple", "list") or len(v.args) != 4:
            rep.undec("extent: result is not a 4-tuple")
            continue
        which = None
        own = False
        for c, b in conds:
            if c.op == "cmp" and c.args[0] == "==" and ref in c.args:
                s = [x for x in c.args[1:] if is_const(x)]
                if s and b:
                    which = cval(s[0])
            if c.op == "isnone" and c.args[0] is crs and b:
                own = True
            if c.op == "cmp" and c.args[0] == "==" and crs in c.args and b:
                own = True
        if which not in ("center", "edge"):
            continue
        inset = HALF if which == "center" else rconst(0)
        vals = list(v.args)
        if not own:
            continue
        hull = Hull(GridNorm())
        for n, t in enumerate(vals):
            k = n // 2
            h = hull(t)
            rows = corner_sets(h[1], k) if h else None
            if rows is None:
                rep.undec("extent(%s): %s not an extreme of affine corners" % (which, ("xmin", "xmax", "ymin", "ymax")[n]))
                continue
            kind = "min" if n % 2 == 0 else "max"
            msg = None
            if h[0] is not None and h[0] != kind:
                msg = "is a %simum of the corners" % h[0]
            for s in range(3):
                nx, ny = rows[0][s][0], rows[0][s][1]
                lo = Fraction(1, 2) if which == "center" else Fraction(0)
                cx, cy = nx - lo, ny - lo
                pts = {(r[s][2], r[s][3]) for r in rows}
                want = {(p_, q_) for p_ in (lo, cx) for q_ in (lo, cy)}
                if not want <= pts:
                    msg = msg or "misses the corner(s) at (column, row) offsets %s for %dx%d cells" % (
                        fmtpts(want - pts), ny, nx)
                if any(not (lo <= a <= cx and lo <= b <= cy) for a, b in pts):
                    msg = msg or "uses points outside the grid: %s for %dx%d cells" % (
                        fmtpts({(a, b) for a, b in pts if not (lo <= a <= cx and lo <= b <= cy)}), ny, nx)
            if msg:
                rep.bad("extent", "RegularGrid.extent(%s)[%d]" % (which, n), msg, where)
            else:
                rep.ok("extent(%s)[%d]" % (which, n), where)


def fmtpts(s):
    return ", ".join("(%s, %s)" % x for x in sorted(s))


def bboxes(p, rep, cls):
    """bounding boxes reorder the edge extent"""
    class P(GridPolicy):
        no_inline = ("transform", "extent", "data_extent")
    for fname, src in (("bbox", "extent"), ("data_bbox", "data_extent")):
        f = cls.lookup(fname)
        if f is None:
            continue
        rep.fn("RegularGrid." + fname)
        for v, conds, where, path, i in returned(p, cls, f, policy=P(), rep=rep):
            if v.op not in ("tuple", "list") or len(v.args) != 4:
                rep.undec("%s: result is not a 4-tuple" % fname)
                continue
            order = []
            for t in v.args:
                if t.op == "item" and t.args[0].op == "mcall" and t.args[0].args[1] in ("extent", "data_extent") and \
                        is_const(t.args[1]):
                    order.append((cval(t.args[1]), t.args[0]))
            if len(order) != 4:
                rep.undec("%s: items are not taken from an extent" % fname)
                continue
            if [o for o, _ in order] != [0, 2, 1, 3]:
                rep.bad("bbox-order", "RegularGrid." + fname, "items are extent[%s], expected extent[0, 2, 1, 3]"
                        % ", ".join(str(o) for o, _ in order), where)
            else:
                rep.ok("%s order" % fname, where)
            for _, e in order[:1]:
                if e.args[1] != src:
                    rep.bad("bbox-source", "RegularGrid." + fname, "derived from %s" % e.args[1], where)
                ref = arg(e, 0, "reference")
                if ref is None or (is_const(ref) and cval(ref) != "edge"):
                    rep.bad("bbox-reference", "RegularGrid." + fname,
                            "bounding box taken from the %s extent, not the cell edges"
                            % (cval(ref) if ref is not None else "default (center)"), where)
                elif is_const(ref):
                    rep.ok("%s from edges" % fname, where)


def edges(p, rep, cls):
    """the edge extent of the data lies half a cell outside the centre extent"""
    f = cls.lookup("data_extent")
    if f is None or len(f.pos) < 2:
        return
    ref = mk("param", f.pos[1])
    for v, conds, where, path, i in returned(p, cls, f, policy=GridPolicy(), rep=rep):
        if v.op not in ("tuple", "list") or len(v.args) != 4:
            continue
        which = None
        for c, b in conds:
            if c.op == "cmp" and c.args[0] == "==" and ref in c.args and b:
                s = [x for x in c.args[1:] if is_const(x)]
                which = cval(s[0]) if s else which
        if which not in ("center", "edge"):
            continue
        g = GridNorm()

        def atom(x):
            if x.op == "call" and x.args[0].op in ("ext", "builtin") and \
                    x.args[0].args[0] in ("abs", "numpy.abs", "numpy.absolute", "math.fabs", "numpy.fabs"):
                a = g(x.args[1][0][1])
                m = list(a.n.items())
                if a.d == {(): 1} and len(m) == 1 and pure(a, BASE) and len(m[0][0]) == 1:
                    return rconst(abs(m[0][1])) * at("|%s|" % m[0][0][0][0])
            return g.atom(x)
        for n, t in enumerate(v.args):
            nm = Norm(atom)
            r = nm(t)
            if any(x.op == "mcall" and x.args[1] == "transform" for x in walk(t)):
                continue
            other = [k for k in r.atoms() if not (k[0] == "|" or k in BASE)]
            if r.d != {(): 1} or len(other) != 1 or r.n.get(((other[0], 1),)) != 1:
                if which == "edge":
                    rep.undec("data_extent(%s)[%d]: offset not recognised" % (which, n))
                continue
            rest = r - at(other[0])
            if not pure(rest, ["|T%d|" % k for k in range(6)] + BASE):
                continue
            a, b = (("|T2|", "|T4|"), ("|T3|", "|T5|"))[n // 2]
            want = (at(a) + at(b)) * HALF if which == "edge" else rconst(0)
            if n % 2 == 0:
                want = -want
            if rest.same(want):
                rep.ok("data_extent(%s)[%d] offset" % (which, n), where)
            else:
                rep.bad("data-extent-offset", "RegularGrid.data_extent(%s)[%d]" % (which, n),
                        "lies %r from the cell centres, expected %r" % (rest, want), where)


# ---------------------------------------------------------------- inverse

def positions(p, rep):
    M = p.modules.get(PYX)
    f = M and M.funcs.get("get_positions_vec")
    if f is None:
        rep.undec("get_positions_vec not found")
        return
    rep.fn("crfuncs.get_positions_vec")

    class P(GridPolicy):
        def inline(self, interp, f, recv, depth):
            return f.module.name == PYX
    i = Interp(p, P())
    try:
        paths = i.run(f, None)
    except Exception as e:
        rep.undec("get_positions_vec: %s" % e)
        return
    xname, yname = f.pos[1], f.pos[2]
    for path in paths:
        if path.kind != "return":
            continue
        v = i.reify(path.value, path.state)
        outs = pair_value(v)
        if outs is None:
            rep.undec("get_positions_vec: result is not a pair")
            continue
        zero = set()

        def atom(x):
            if x.op == "item" and x.args[0].op == "param" and x.args[0].args[0] == f.pos[0] and is_const(x.args[1]):
                return "T%d" % cval(x.args[1])
            if x.op in ("item", "elem") and x.args[0].op == "param" and x.args[0].args[0] == xname:
                return xform(at("c") + HALF, at("r") + HALF)
            if x.op in ("item", "elem") and x.args[0].op == "param" and x.args[0].args[0] == yname:
                return yform(at("c") + HALF, at("r") + HALF)
            return None
        nm = Norm(atom)
        fix = {}
        for c, b in path.conds:
            if b and c.op == "cmp" and c.args[0] == "==":
                for x, y in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
                    if is_const(y) and cval(y) == 0 and x.op == "item" and x.args[0].op == "param":
                        fix["T%d" % cval(x.args[1])] = rconst(0)
        n = 0
        for k, t in enumerate(outs):
            for s in walk(t):
                if s.op != "set":
                    continue
                key, val = s.args
                got = nm(val)
                if fix:
                    got = got.subst(lambda a: fix.get(a))
                want = at("rc"[k])
                if not pure(got, BASE):
                    rep.undec("get_positions_vec: output %d not a rational function of the transform" % k)
                    continue
                n += 1
                if got.same(want):
                    rep.ok("%s index of a cell centre is its %s" % (("row", "column")[k], ("row", "column")[k]), path.where)
                else:
                    rep.bad("inverse", "crfuncs.get_positions_vec[%d]" % k, "the centre of cell (r, c) is given "
                            "position %s, expected %s" % (repr(got)[:160], "rc"[k]), path.where)
        if not n:
            rep.undec("get_positions_vec: no output recognised")


ROUND = ("numpy.round", "round", "numpy.rint", "numpy.around")
DOWN = ("numpy.floor", "math.floor")
UP = ("numpy.ceil", "math.ceil")


def rounding(p, rep, cls):
    for fname in ("_indices", "indices"):
        f = cls.lookup(fname)
        if f is None:
            continue
        rep.fn("RegularGrid." + fname)

        class P(GridPolicy):
            no_inline = ("transform", "positions")
        for v, conds, where, path, i in returned(p, cls, f, policy=P(), rep=rep):
            outs = pair_value(v)
            if outs is None:
                continue
            for k, t in enumerate(outs):
                kind, off, axis = None, None, None
                x = t
                for _ in range(6):
                    if x.op == "mcall" and x.args[1] in ("astype",):
                        kind = kind or "int"
                        x = x.args[0]
                    elif x.op == "mcall" and x.args[1] == "round":
                        kind = "round"
                        x = x.args[0]
                    elif x.op == "call" and x.args[0].op in ("ext", "builtin"):
                        n = x.args[0].args[0]
                        if n == "int" or n.startswith("numpy.int"):
                            kind = kind or "int"
                        elif n in ROUND:
                            kind = "round"
                        elif n in DOWN:
                            kind = "floor"
                        elif n in UP:
                            kind = "ceil"
                        else:
                            break
                        x = x.args[1][0][1]
                    else:
                        break
                base = [s for s in walk(x) if s.op == "item" and s.args[0].op == "mcall" and
                        s.args[0].args[1] == "positions"]
                if kind is None or len(base) != 1:
                    rep.undec("%s: rounding not recognised" % fname)
                    continue
                nm = Norm(lambda q: "P" if q is base[0] else None)
                d = (nm(x) - at("P")).const()
                if d is None:
                    rep.undec("%s: offset not recognised" % fname)
                    continue
                axis = cval(base[0].args[1]) if is_const(base[0].args[1]) else None
                ok = (kind == "round" and d == 0) or (kind in ("floor", "int") and d == Fraction(1, 2)) or \
                    (kind == "ceil" and d == Fraction(-1, 2))
                if not ok:
                    rep.bad("index-rounding", "RegularGrid.%s" % fname, "fractional position %+g is converted by %s, "
                            "so a cell centre does not reliably give its own index" % (float(d), kind), where)
                elif axis is not None and axis != k:
                    rep.bad("index-order", "RegularGrid.%s" % fname, "index %d is taken from position %d" % (k, axis), where)
                else:
                    rep.ok("%s rounds to the nearest cell" % fname, where)


# ---------------------------------------------------------------- dimensions

def dims(p, rep, mods=MODS):
    for c, f in functions(p, mods):
        qn = qname(c, f)
        if f.name in SKIP:
            continue

        class P(GridPolicy):
            no_inline = ("transform", "positions", "_indices", "indices", "extent", "data_extent", "sample_nearest",
                         "sample_bilinear", "center_coords", "coordmesh", "vertex_coords", "data_mask_full",
                         "data_mask") if f.name not in ("positions", "_indices", "indices", "extent", "data_extent") \
                else ("transform", "center_coords", "data_mask_full")
        i = Interp(p, P())
        try:
            paths = i.run(f, c)
        except Exception as e:
            rep.undec("%s: %s" % (qn, type(e).__name__))
            continue
        rep.fn(qn)
        un = Units(seeder(qn))
        nfacts = 0
        checked = set()
        for path in paths[:64]:
            v = i.reify(path.value, path.state) if path.kind == "return" and path.value is not None else None
            for t, where in all_terms(path, v, i):
                un.val(t)
                if t in checked:
                    continue
                checked.add(t)
                uses(rep, un, t, qn, where)
            if v is not None and qn in RESULTS and v.op in ("tuple", "list") and len(v.args) == len(RESULTS[qn]):
                for k, (a, w) in enumerate(zip(v.args, RESULTS[qn])):
                    u = un(a)
                    if u and clash(u, w):
                        rep.bad("dimension", "%s result %d" % (qn, k), "has dimension %s, expected %s"
                                % (name(u), name(w)), path.where)
                    elif u:
                        rep.ok("%s result %d is %s" % (qn, k, name(w)), path.where)
        for t, a, b, what in un.clashes:
            rep.bad("dimension", "%s: %s" % (qn, str(t)[:100]), "%s joins %s with %s" % (what, name(a), name(b)),
                    f.qual)
        good = sum(1 for t, u in un.memo.items() if u and not isinstance(u, Seq) and t.op in ("bin", "cmp", "call"))
        if good:
            rep.ok("%s: %d sums, products, comparisons and extremes have consistent dimensions" % (qn, good))


def uses(rep, un, t, qn, where):
    if t.op == "item" and t.args[1].op == "tuple" and len(t.args[1].args) in (2, 3):
        axes(rep, un, t.args[1].args, qn, where, "index")
    elif t.op in ("call", "mcall"):
        n = t.args[1] if t.op == "mcall" else t.args[0].args[0].split(".")[-1] \
            if t.args[0].op in ("func", "ext") else None
        args = t.args[2] if t.op == "mcall" else t.args[1]
        if n in CALLS and len(args) > 1:
            for k, a in args:
                w = CALLS[n].get(k)
                if w is None:
                    continue
                u = un(a)
                if u and clash(u, w):
                    rep.bad("dimension", "%s: argument %s of %s" % (qn, k, n), "is %s, expected %s"
                            % (name(u), name(w)), where)
                elif u:
                    rep.ok("%s: argument %s of %s" % (qn, k, n), where)
        if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in SHAPED and args:
            s = args[0][1]
            if s.op in ("tuple", "list") and len(s.args) >= 2:
                axes(rep, un, s.args, qn, where, "shape")
    elif t.op == "new":
        tr = arg(t, "transform")
        if tr is not None and tr.op in ("tuple", "list") and len(tr.args) == 6:
            from ..units import TR
            for k, a in enumerate(tr.args):
                u = un(a)
                if u and clash(u, TR[k]):
                    rep.bad("dimension", "%s: transform[%d]" % (qn, k), "is %s, expected %s" % (name(u), name(TR[k])), where)
                elif u:
                    rep.ok("%s: transform[%d]" % (qn, k), where)
        s = arg(t, "size")
        if s is not None and s.op in ("tuple", "list") and len(s.args) == 2:
            axes(rep, un, s.args, qn, where, "size")


def axes(rep, un, ks, qn, where, what):
    for k, w in ((0, R), (1, C)):
        parts = ks[k].args[:2] if ks[k].op == "slice" else (ks[k],)
        for a in parts:
            u = un(a)
            if u and what != "index" or u in (R, C):
                if u != w:
                    rep.bad("axis-order", "%s: %s %s" % (qn, what, str(a)[:60]),
                            "axis %d is given a quantity of %s" % (k, name(u)), where)
                else:
                    rep.ok("%s: %s axis %d is %s" % (qn, what, k, name(w)), where)


# ---------------------------------------------------------------- paired coordinate formulas

def pairing(p, rep, mods=MODS):
    for c, f in functions(p, mods):
        qn = qname(c, f)
        if f.name in SKIP:
            continue
        i = Interp(p, GridPolicy())
        try:
            paths = i.run(f, c)
        except Exception:
            continue
        for path in paths[:40]:
            v = i.reify(path.value, path.state) if path.kind == "return" and path.value is not None else None
            gn = GridNorm(selfonly=False)
            xs, ys = {}, {}
            maximal = set()
            inner = set()
            for t, where in all_terms(path, v, i):
                if t.op == "bin" and t.args[0] in ("+", "-"):
                    maximal.add((t, where))
                    for a in t.args[1:]:
                        inner.add(a)
            for t, where in maximal:
                if t in inner:
                    continue
                r = gn(t)
                if r.d != {(): 1} or len(r.n) > 40:
                    continue
                d = split(r)
                if d is None:
                    continue
                k, a, b = d
                (xs if k == 0 else ys).setdefault((a, b), where)
            if xs and ys:
                for k, (mine, other) in enumerate(((xs, ys), (ys, xs))):
                    for ab, where in mine.items():
                        if ab in other:
                            rep.ok("%s: x and y formula share cell offsets" % qn, where)
                        elif len(xs) != len(ys) or not any((o[0] == ab[0]) != (o[1] == ab[1]) for o in other):
                            continue
                        else:
                            rep.bad("paired-formula", "%s: %s" % (qn, "xy"[k]),
                                    "%s is taken at (column, row) = (%s) but no %s formula uses that cell position; "
                                    "present: %s" % ("xy"[k], "; ".join(ab), "yx"[k],
                                                     " | ".join("; ".join(q) for q in list(other)[:3])), where)


def split(r):
    """(0|1, column offset, row offset) of an affine coordinate formula"""
    for k, (o, a, b) in enumerate((("T0", "T2", "T4"), ("T1", "T5", "T3"))):
        if r.n.get(((o, 1),)) != 1:
            continue
        col, row, rest = {}, {}, False
        for m, c in r.n.items():
            if m == ((o, 1),):
                continue
            ks = dict(m)
            ts = [x for x in ks if x[0] == "T" and x[1:].isdigit()]
            if len(ts) != 1 or ks[ts[0]] != 1:
                return None
            others = tuple(sorted((x, e) for x, e in ks.items() if x != ts[0]))
            if ts[0] == a:
                col[others] = c
            elif ts[0] == b:
                row[others] = c
            else:
                return None
        if not col and not row:
            return None
        return k, repr(Rat(col)), repr(Rat(row))
    return None


def check():
    rep = Report("C08", RULE)
    rep.minimum = 40
    p = Program()
    cls = p.cls("karta.raster.grid.RegularGrid")
    ny, nx = at("ny"), at("nx")
    cen = (xform(at("c") + HALF, at("r") + HALF), yform(at("c") + HALF, at("r") + HALF))
    ver = (xform(at("c"), at("r")), yform(at("c"), at("r")))
    accessor(p, rep, cls, "center_coords", cen[0], cen[1], (ny, nx))
    accessor(p, rep, cls, "coordmesh", cen[0], cen[1], (ny, nx))
    accessor(p, rep, cls, "vertex_coords", ver[0], ver[1], (ny + rconst(1), nx + rconst(1)))
    reference(p, rep, cls, "center_llref", Fraction(1, 2))
    reference(p, rep, cls, "corner_llref", Fraction(0))
    reference(p, rep, cls, "origin", Fraction(0))
    generator(p, rep)
    extent(p, rep, cls)
    bboxes(p, rep, cls)
    edges(p, rep, cls)
    positions(p, rep)
    rounding(p, rep, cls)
    dims(p, rep)
    pairing(p, rep)
    return rep
