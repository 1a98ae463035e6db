"""C11: grids derived from a grid keep its transform, CRS and nodata value."""
from ..loader import Program
from ..report import Report
from ..results import returned, results_in, new_class, has_rest
from ..interp import Interp
from ..poly import Norm, Rat, rconst, ratom
from ..provenance import Provenance, Prov, Unknown
from .. import chunks
from ..terms import T, mk, is_const, cval, const, walk, arg, subst, contains, NONE
from ..rasterspec import GridPolicy, qname
from .c08 import GridNorm, at, functions, xform, yform

TECHNIQUE = "cell-provenance analysis of result arrays against rational normal forms of the result transform"
RULE = ("For every grid an operation of the raster package constructs from a grid: its CRS is the source's, its "
        "declared nodata value is the one its empty cells are filled with (the source's, or NaN for floating-point "
        "surfaces), and its transform is the source's displaced by exactly the cell offset at which the values were "
        "cut out of, written to, or sampled from the source.")
MODS = ("karta.raster.grid", "karta.raster.misc")
SKIPF = ("__init__", "newgrid", "gridpoints")


class P11(GridPolicy):
    no_inline = ("transform", "positions", "_indices", "indices", "extent", "data_extent", "sample_nearest",
                 "sample_bilinear", "sample", "center_coords", "coordmesh", "vertex_coords", "data_mask",
                 "data_mask_full", "mask_poly", "bbox", "profile")


def gridlike(t):
    if t.op == "param":
        return t.args[0] in ("self", "grid")
    if t.op == "item" and t.args[0].op == "param" and t.args[0].args[0] == "grids":
        return is_const(t.args[1])
    return False


def strip_copy(t):
    while True:
        if t.op == "call" and t.args[0].op in ("ext", "builtin") and \
                t.args[0].args[0] in ("copy.copy", "copy.deepcopy", "tuple", "list") and len(t.args[1]) == 1:
            t = t.args[1][0][1]
        elif t.op == "item" and t.args[1].op == "slice" and all(x is NONE for x in t.args[1].args):
            t = t.args[0]
        else:
            return t


def transform_rats(t, gn):
    """six Rats of a transform value, or None"""
    s = strip_copy(t)
    if s.op == "attr" and s.args[1] in ("transform", "_transform") and gridlike(s.args[0]):
        return [at("T%d" % k) for k in range(6)]
    if s.op in ("tuple", "list") and len(s.args) == 6 and not any(x.op in ("star", "each") for x in s.args):
        return [gn(x) for x in s.args]
    if s.op == "bin" and s.args[0] == "+":
        parts = []
        for x in (s.args[1], s.args[2]):
            x = strip_copy(x)
            if x.op in ("tuple", "list") and not any(y.op in ("star", "each") for y in x.args):
                parts.extend(gn(y) for y in x.args)
            elif x.op == "item" and x.args[1].op == "slice" and x.args[0].op == "attr" and \
                    x.args[0].args[1] in ("transform", "_transform"):
                lo, hi, st = x.args[1].args
                v = [None if q is NONE else cval(q) if is_const(q) else "?" for q in (lo, hi, st)]
                if "?" in v:
                    return None
                parts.extend([at("T%d" % k) for k in range(6)][slice(*v)])
            else:
                return None
        return parts if len(parts) == 6 else None
    return None


class SrcNorm(GridNorm):
    def __init__(self):
        GridNorm.__init__(self)

    def own(self, t):
        if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] == "bands":
            return self.own(t.args[0].args[0])
        return gridlike(t)

    def atom(self, t):
        r = GridNorm.atom(self, t)
        if r is not None:
            return r
        if t.op == "call" and t.args[0].op in ("ext", "builtin") and t.args[0].args[0] == "max" and \
                len(t.args[1]) == 2:
            a, b = [v for _, v in t.args[1]]
            if is_const(b) and not is_const(a):
                a, b = b, a
            if is_const(a) and cval(a) == 0:
                x = self(b)
                neg = -x
                kx, kn = repr(x), repr(neg)
                if kx <= kn:
                    return ratom("pos(%s)" % kx)
                return ratom("pos(%s)" % kn) + x
        return None


def crs_of(t):
    return t is not None and t.op == "attr" and t.args[1] == "crs" and gridlike(t.args[0])


def nan(t):
    return t is not None and ((t.op == "ext" and t.args[0] in ("numpy.nan", "math.nan", "numpy.NaN")) or
                              (is_const(t) and isinstance(cval(t), float) and cval(t) != cval(t)))


def nodata_of(t):
    return t is not None and t.op == "attr" and t.args[1] in ("nodata", "_nodata", "nodata_value") and \
        gridlike(t.args[0])


def fill_markers(v, depth=0):
    """what empty cells are filled with: terms"""
    out = []
    for x in walk(v):
        if x.op == "call" and x.args[0].op == "ext":
            n = x.args[0].args[0]
            if n == "numpy.where" and len(x.args[1]) == 3:
                for k in (1, 2):
                    a = x.args[1][k][1]
                    if nan(a) or nodata_of(a):
                        out.append(a)
            if n == "numpy.pad":
                m = arg(x, "constant_values")
                if m is not None:
                    m = m.args[0] if m.op in ("tuple", "list") and m.args else m
                    if nan(m) or nodata_of(m):
                        out.append(m)
    return out


def check_result(p, rep, qn, r, conds, where, path, i, f):
    if has_rest(r):
        return
    crs = arg(r, "crs")
    name = "%s result" % qn
    if crs_of(crs):
        rep.ok("%s: crs of the source" % name, where)
    elif crs is None or crs is NONE:
        rep.bad("derived-crs", qn, "the new grid is constructed without the source's CRS", where)
    elif crs.op == "class" or (crs.op == "global"):
        rep.bad("derived-crs", qn, "the new grid gets the fixed CRS %s" % crs, where)
    else:
        rep.undec("%s: crs %s" % (name, str(crs)[:60]))
    nd = arg(r, "nodata_value")
    vals = arg(r, "values")
    marks = fill_markers(vals) if vals is not None else []
    if vals is None:
        b = arg(r, "bands")
        marks = [x for y in walk(b) if y.op in ("new", "mcall") for x in [arg(y, "initval")] if x is not None
                 and (nan(x) or nodata_of(x))] if b is not None else []
    if nd is None or nd is NONE:
        # constructor default for the dtype: NaN for floats
        if any(nodata_of(m) for m in marks) or not marks:
            rep.bad("derived-nodata", qn, "the new grid is constructed without the source's nodata value", where)
        else:
            rep.ok("%s: NaN marks missing cells of a floating-point surface" % name, where)
    elif nan(nd):
        if any(nodata_of(m) for m in marks) or not any(nan(m) for m in marks):
            rep.bad("derived-nodata", qn, "missing cells hold the source's nodata value but NaN is declared", where)
        else:
            rep.ok("%s: declared nodata is the fill value" % name, where)
    elif nodata_of(nd):
        if any(nan(m) for m in marks):
            rep.bad("derived-nodata", qn, "missing cells are NaN but the source's nodata value is declared", where)
        else:
            rep.ok("%s: nodata of the source" % name, where)
    elif is_const(nd):
        rep.bad("derived-nodata", qn, "the new grid gets the fixed nodata value %s" % nd, where)
    else:
        rep.undec("%s: nodata %s" % (name, str(nd)[:60]))
    tr = arg(r, "transform")
    if tr is None:
        rep.undec("%s: no transform argument" % name)
        return
    gn = SrcNorm()
    tv = transform_rats(tr, gn)
    if vals is not None:
        placed(rep, qn, name, vals, tr, tv, gn, where, crs, conds)


def sampled(v, conds):
    """(sample call, transposition or None) of an array of sampled values"""
    perm = None
    if v.op == "mcall" and v.args[1] == "transpose":
        a = [x for _, x in v.args[2]]
        if len(a) == 1 and a[0].op in ("tuple", "list"):
            a = a[0].args
        perm = tuple(cval(x) if is_const(x) else None for x in a)
        v = v.args[0]
    elif v.op == "call" and v.args[0].op == "ext" and v.args[0].args[0] == "numpy.moveaxis":
        a = [x for _, x in v.args[1]]
        if len(a) == 3 and is_const(a[1]) and is_const(a[2]):
            perm = {(0, -1): (1, 2, 0), (0, 2): (1, 2, 0)}.get((cval(a[1]), cval(a[2])), "other")
        v = a[0]
    if v.op == "mcall" and v.args[1] in ("sample_nearest", "sample_bilinear", "sample"):
        return v, perm
    return None, None


def placed(rep, qn, name, vals, tr, tv, gn, where, crs, conds):
    s, perm = sampled(vals, conds)
    if s is not None:
        three = None
        for c, b in conds:
            if c.op == "cmp" and c.args[0] == "==" and any(is_const(x) and cval(x) == 3 for x in c.args[1:]) and \
                    any(x.op == "attr" and x.args[1] == "ndim" for x in c.args[1:]):
                three = b
        if perm is not None and perm != (1, 2, 0):
            rep.bad("sampled-layout", qn, "sampled values (band, row, column) are transposed by %s" % (perm,), where)
        elif perm is None and three:
            rep.bad("sampled-layout", qn, "sampled values (band, row, column) are used as (row, column, band)", where)
        xa = arg(s, 0, "x")
        ya = arg(s, 1, "y")
        gens = []
        for k, a in enumerate((xa, ya)):
            if a is None:
                return
            if a.op == "item" and is_const(a.args[1]) and a.args[0].op == "item" and a.args[0].args[0].op == "new":
                if cval(a.args[1]) != k:
                    rep.bad("sampled-axes", qn, "the %s argument of sampling is coordinate %s"
                            % ("xy"[k], cval(a.args[1])), where)
                gens.append((a.args[0].args[0], a.args[0].args[1]))
            else:
                rep.undec("%s: sampling positions not recognised" % name)
                return
        g, key = gens[0]
        if gens[1][0] is not g:
            rep.undec("%s: different generators" % name)
            return
        gt = arg(g, "transform")
        a = transform_rats(gt, gn)
        same = strip_copy(gt) is strip_copy(tr) or (a is not None and tv is not None and
                                                    all(x.same(y) for x, y in zip(a, tv)))
        if same:
            rep.ok("%s: values are sampled at the centres of its own cells" % name, where)
        elif a is not None and tv is not None:
            rep.bad("sampled-transform", qn, "values are sampled with transform %s but the grid is given %s"
                    % (a, tv), where)
        else:
            rep.undec("%s: transform of the sampling positions" % name)
        for an in ("transform_crs", "output_crs"):
            c = arg(g, an)
            if c is not None and not crs_of(c):
                rep.undec("%s: %s %s" % (name, an, str(c)[:50]))
        full = key.op == "tuple" and all(x.op == "slice" and all(y is NONE for y in x.args) for x in key.args)
        if not full:
            rep.undec("%s: positions are not the full grid" % name)
        if tv is not None and a is not None and qn.endswith(".resample"):
            anchored(rep, qn, name, tv, tr, where)
        return
    pv = Provenance(gn, gridlike)
    try:
        q = pv(vals)
    except Unknown:
        q = "?"
    if q is None or q == "?":
        if tv is not None and all(x.same(at("T%d" % k)) for k, x in enumerate(tv)):
            rep.undec("%s: provenance of the values" % name)
        else:
            rep.undec("%s: provenance of the values and transform" % name)
        return
    if any(q.flip):
        rep.bad("flipped-values", qn, "values are reversed along axis %s but the transform keeps its direction"
                % ",".join(str(k) for k in (0, 1) if q.flip[k]), where) if tv is not None and \
            tv[2].same(at("T2")) and tv[3].same(at("T3")) else rep.undec("%s: flipped" % name)
        return
    offs = []
    for k, ax in enumerate(q.axes):
        los = [x for x, _ in ax]
        if any(x is None for x in los):
            offs.append(None)
            continue
        cs = [x.const() for x in los]
        if len(los) == 1:
            offs.append(los[0])
        elif all(c is not None for c in cs):
            offs.append(rconst((min(cs) + max(cs)) / 2))
            tot = {(x.const() + y.const()) for x, y in ax if x is not None and y is not None and
                   x.const() is not None and y.const() is not None}
            if len(tot) > 1:
                rep.undec("%s: stencil sizes differ" % name)
                return
        else:
            offs.append(None)
    if tv is None:
        rep.undec("%s: transform %s" % (name, str(tr)[:60]))
        return
    if any(o is None for o in offs):
        rep.undec("%s: offsets" % name)
        return
    want = [xform(offs[1], offs[0]), yform(offs[1], offs[0])] + [at("T%d" % k) for k in range(2, 6)]
    for k, (got, w) in enumerate(zip(tv, want)):
        if not got.same(w):
            rep.bad("derived-transform", "%s transform[%d]" % (qn, k), "is %s, but the values start at source "
                    "(row, column) offset (%s, %s), which requires %s"
                    % (rshort(got), rshort(offs[0]), rshort(offs[1]), rshort(w)), where)
            return
    rep.ok("%s: transform matches the offset of its values" % name, where)


def rshort(r):
    return repr(r)[:120]


def anchored(rep, qn, name, tv, tr, where):
    """the first sampled cell centre of a resampled grid is the grid's minimum-corner centre"""
    half = rconst(1) / rconst(2)
    c0 = tv[0] + half * tv[2] + half * tv[4]
    c1 = tv[1] + half * tv[3] + half * tv[5]
    s = strip_copy(tr)
    names = {}
    for x in walk(s):
        if x.op == "item" and x.args[0].op == "mcall" and x.args[0].args[1] == "extent" and is_const(x.args[1]):
            names[x] = cval(x.args[1])
    nm = SrcNorm()
    ext = {}
    for x, k in names.items():
        ext.setdefault(k, nm(x))
    if 0 not in ext or 2 not in ext:
        rep.undec("%s: origin not taken from the extent" % name)
        return
    tv2 = transform_rats(tr, nm)
    c0 = tv2[0] + half * tv2[2] + half * tv2[4]
    c1 = tv2[1] + half * tv2[3] + half * tv2[5]
    for k, (c, e, w) in enumerate(((c0, ext[0], "xmin"), (c1, ext[2], "ymin"))):
        if c.same(e):
            rep.ok("%s: first cell centre is %s" % (name, w), where)
        else:
            rep.bad("resample-origin", "%s %s" % (qn, "xy"[k]), "the first cell centre lies at %s, not at the "
                    "grid's first cell centre" % rshort(c), where)


# ------------------------------------------------------------------ block copies (resize, merge)

ROUNDING = ("int", "round", "math.floor", "math.ceil", "numpy.floor", "numpy.ceil", "numpy.round", "numpy.rint")


def unround(t):
    """offset expression with roundings removed"""
    def go(x):
        while True:
            if x.op == "call" and x.args[0].op in ("ext", "builtin") and x.args[0].args[0] in ROUNDING and x.args[1]:
                x = x.args[1][0][1]
            elif x.op == "bin" and x.args[0] == "+" and is_const(x.args[2]) and cval(x.args[2]) == 1 and \
                    x.args[1].op == "bin" and x.args[1].args[0] == "//":
                x = x.args[1]
            elif x.op == "bin" and x.args[0] == "//" and is_const(x.args[2]) and cval(x.args[2]) == 1:
                x = x.args[1]
            else:
                return x
    return go(t)


class Place(SrcNorm):
    """offsets with their roundings removed: a rounded offset denotes the offset it rounds"""
    def __init__(self, T0src=None):
        SrcNorm.__init__(self)

    def atom(self, t):
        u = unround(t)
        if u is not t:
            return u
        return SrcNorm.atom(self, t)


def key_lo(k):
    if k.op == "slice":
        return const(0) if k.args[0] is NONE else k.args[0]
    return None


def blocks(p, rep):
    """setblock(i', j', source.getblock(i, j, ...)): the transform displaces by the same offset"""
    cls = p.cls("karta.raster.grid.RegularGrid")
    for c, f in functions(p, MODS):
        if f.name in SKIPF:
            continue
        qn = qname(c, f)
        i = Interp(p, P11())
        try:
            paths = i.run(f, c)
        except Exception as e:
            continue
        for path in paths[:64]:
            if path.kind != "return" or path.value is None:
                continue
            v = i.reify(path.value, path.state)
            news = [x for x in results_in(v) if new_class(x) == "RegularGrid" and arg(x, "bands") is not None]
            if not news:
                continue
            tr = arg(news[0], "transform")
            for e in path.events:
                if e.kind != "mcall" or e.term.op != "mcall" or e.term.args[1] != "setblock":
                    continue
                t = i.reify(e.term, path.state)
                yo, xo, arr = arg(t, 0, "yoff"), arg(t, 1, "xoff"), arg(t, 2, "array")
                if yo is None or xo is None or arr is None:
                    continue
                src = [x for x in walk(arr) if x.op == "mcall" and x.args[1] == "getblock"]
                if not src or arr is not src[0]:
                    continue
                s = src[0]
                si, sj = arg(s, 0, "yoff"), arg(s, 1, "xoff")
                if si is None or sj is None:
                    continue
                nm = Place()
                tv = transform_rats(tr, nm)
                if tv is None:
                    rep.undec("%s: transform of a block copy" % qn)
                    continue
                di, dj = nm(si) - nm(yo), nm(sj) - nm(xo)
                want = (xform(dj, di), yform(dj, di))
                for k in (0, 1):
                    if tv[k].same(want[k]):
                        rep.ok("%s: transform matches the block offset (%s)" % (qn, "xy"[k]), e.where)
                    elif tv[k].atoms() <= want[k].atoms() | set("T%d" % q for q in range(6)) or True:
                        rep.bad("block-transform", "%s %s origin" % (qn, "xy"[k]),
                                "is %s, but block offset (rows %s, columns %s) requires %s"
                                % (rshort(tv[k]), rshort(di), rshort(dj), rshort(want[k])), e.where)


def accumulate(p, rep):
    """merge: the cells each grid is added to lie where the grid's own transform places them"""
    M = p.modules.get("karta.raster.grid")
    f = M and M.funcs.get("merge")
    if f is None:
        return
    i = Interp(p, P11())
    try:
        paths = i.run(f, None)
    except Exception as e:
        rep.undec("merge: %s" % e)
        return
    rep.fn("merge")
    for path in paths:
        if path.kind != "return" or path.value is None:
            continue
        v = i.reify(path.value, path.state)
        news = [x for x in results_in(v) if new_class(x) == "RegularGrid"]
        if not news:
            continue
        tr = arg(news[0], "transform")
        for e in path.events:
            if e.kind != "store":
                continue
            key, val, base = e.extra[:3]
            b = i.reify(e.term, path.state) if isinstance(e.term, T) else None
            win = window(b) or window(i.reify(base, path.state) if isinstance(base, T) else None)
            if win is None:
                continue
            g = [x for x in walk(i.reify(key, path.state)) if x.op == "attr" and x.args[1] in
                 ("data_mask_full", "data_mask")]
            if not g:
                continue
            src = g[0].args[0]
            for case, (lo_i, lo_j, tr2, gt) in cases(win, tr, src):
                nm = Place()
                nm2 = MergeNorm(gt, nm)
                tv = transform_rats(tr2, nm2)
                if tv is None:
                    rep.undec("merge: transform %s" % str(tr2)[:80])
                    continue
                for k in (0, 1):
                    a, b2 = (at("T2"), at("T4")) if k == 0 else (at("T5"), at("T3"))
                    got = tv[k] + a * nm2(lo_j) + b2 * nm2(lo_i)
                    want = nm2(mk("item", mk("attr", gt, "transform"), const(k)))
                    if got.same(want):
                        rep.ok("merge: %s of each grid's first cell (%s)" % ("xy"[k], case), e.where)
                    else:
                        rep.bad("merge-offset", "merge %s" % "xy"[k], "the first cell of a grid is placed at %s "
                                "instead of %s" % (rshort(got), rshort(want)), e.where)


class MergeNorm(Place):
    def __init__(self, gt, base):
        Place.__init__(self)
        self.gt = gt

    def atom(self, t):
        if t.op == "item" and is_const(t.args[1]) and t.args[0].op == "attr" and \
                t.args[0].args[1] in ("transform", "_transform"):
            b = t.args[0].args[0]
            k = cval(t.args[1])
            if gridlike(b):
                return "T%d" % k
            # scale and skew are checked to agree before merging
            return "T%d" % k if k >= 2 else "G%d" % k
        return Place.atom(self, t)


def window(b):
    if b is None:
        return None
    if b.op == "item" and b.args[1].op == "tuple" and len(b.args[1].args) == 2 and \
            all(x.op == "slice" for x in b.args[1].args):
        return tuple(key_lo(x) for x in b.args[1].args)
    return None


def cases(win, tr, src):
    """offsets kept in a list next to the grids: one case for the first grid, one for the others"""
    lists = set()
    bound = {mk("elem", x.args[0], x.args[1]) for w in win for x in walk(w) if x.op == "each"}
    for w in win:
        for x in walk(w):
            if x not in bound and x.op == "elem" and x.args[0].op == "list" and x.args[0].args and \
                    any(y.op == "each" for y in x.args[0].args):
                lists.add(x)
    if not lists:
        yield "each grid", (win[0], win[1], tr, src)
        return
    grids = src.args[0] if src.op == "elem" else None
    for which in ("first", "other"):
        m = {}
        g = None
        for x in lists:
            ent = x.args[0].args
            if which == "first" and ent[0].op != "each":
                m[x] = ent[0]
                g = mk("item", grids, const(0)) if grids is not None else None
            elif which == "other" and ent[-1].op == "each":
                m[x] = ent[-1].args[3]
                it, d = ent[-1].args[:2]
                g = mk("elem", it, d)
        if not m or g is None:
            continue
        yield which, (resolve(subst(win[0], m)), resolve(subst(win[1], m)), tr, g)


def resolve(t):
    """items of literal tuples"""
    from ..terms import children
    memo = {}

    def go(x):
        if not isinstance(x, T):
            if isinstance(x, tuple):
                return tuple(go(a) for a in x)
            return x
        if x in memo:
            return memo[x]
        r = mk(x.op, *[go(a) for a in x.args])
        if r.op == "item" and r.args[0].op in ("tuple", "list") and is_const(r.args[1]) and \
                isinstance(cval(r.args[1]), int) and not any(y.op in ("each", "star") for y in r.args[0].args):
            try:
                r = r.args[0].args[cval(r.args[1])]
            except IndexError:
                pass
        memo[x] = r
        return r
    return go(t)


COPYING = ("copy", "apply", "mask_by_poly")


def check():
    rep = Report("C11", RULE)
    rep.minimum = 20
    p = Program()
    for c, f in functions(p, MODS):
        if f.name in SKIPF or (c is not None and c.name not in ("Grid", "RegularGrid")):
            continue
        qn = qname(c, f)
        for v, conds, where, path, i in returned(p, c, f, policy=P11(), rep=rep):
            rs = [x for x in results_in(v) if new_class(x) == "RegularGrid"]
            for r in rs:
                rep.fn(qn)
                check_result(p, rep, qn, r, conds, where, path, i, f)
            if f.name in COPYING and not rs:
                base = v
                while base.op == "upd":
                    base = base.args[0]
                b = strip_copy(base)
                rep.fn(qn)
                if b.op == "param" and b.args[0] == "self":
                    rep.ok("%s: the grid itself or its full copy" % qn, where)
                else:
                    rep.undec("%s: result %s" % (qn, str(v)[:60]))
    blocks(p, rep)
    accumulate(p, rep)
    grid = p.modules["karta.raster.grid"].classes.get("RegularGrid") if hasattr(p, "modules") else None
    f = grid.methods.get("aschunks") if grid is not None else None
    if f is None:
        rep.undec("aschunks: not found")
    else:
        try:
            chunks.check(p, rep, f, grid)
        except Exception as e:
            rep.undec("aschunks: %s" % type(e).__name__)
    return rep
