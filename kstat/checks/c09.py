"""C09: GeoTIFF writing and reading agree on georeference, layout, nodata and type."""
import ast

from ..interp import Interp, Policy
from ..iospec import Flips, extname, cargs, same, text_of
from ..loader import Program
from ..poly import Norm, ratom, rconst
from ..report import Report
from ..terms import T, mk, const, is_const, cval, walk, subst, arg
from .c18 import literal, Unknown

TECHNIQUE = "path-wise value terms of writer and reader compared with the format's conventions as rational normal forms"
RULE = ("Writer: the six geotransform numbers are, as rational functions of the grid's transform and size, those of GDAL's "
        "pixel/line convention for a raster whose first line is the grid's last row; the dataset is created as (columns, "
        "rows, bands, type of the values), every band i goes to file band i+1 with its rows reversed exactly once and the "
        "grid's nodata, and the projection is the grid's. Reader: the transform is the inverse function of the six "
        "numbers, rows are reversed exactly once (and no axis is dropped before), bands keep the order asked for, windows "
        "of files are addressed from the other end, nodata and system come from the file. Type tables: reader after "
        "writer is the identity on every supported type.")
MODS = {"karta.raster.read", "karta.raster._gdal"}
GDALMOD = "karta.raster._gdal"


class Flow(Policy):
    max_states = 6000
    max_depth = 6
    keep = ("numpy_dtype", "gdal_type")

    def inline(self, i, f, recv, d):
        return f.module.name in MODS and f.name not in self.keep and f.name != "__init__"


def positional(t, names):
    """arguments of an external call by name or position"""
    out = {}
    for k, v in t.args[-1]:
        if isinstance(k, int):
            if k < len(names):
                out[names[k]] = v
        else:
            out[k] = v
    return out


def size_atom(t):
    if t.op == "attr":
        if t.args[1] in ("RasterXSize", "XSize"):
            return "nx"
        if t.args[1] in ("RasterYSize", "YSize"):
            return "ny"
    return None


# ---------------------------------------------------------------- writer
def writer(rep, p):
    m = p.modules[GDALMOD]
    f = m.funcs.get("write")
    if f is None:
        rep.undec("no writer")
        return
    rep.fn("_gdal.write")
    con, where = "write", "%s (%s)" % (f.where, f.qual)
    grid = mk("param", f.pos[1].name if hasattr(f.pos[1], "name") else f.pos[1])
    names = ("x0", "y0", "dx", "dy", "sx", "sy")

    def atom(t):
        if t.op == "item" and is_const(t.args[1]) and isinstance(cval(t.args[1]), int):
            b, k = t.args[0], cval(t.args[1])
            if b.op == "attr" and b.args[0] is grid:
                if b.args[1] in ("transform", "_transform") and -6 <= k < 6:
                    return names[k]
                if b.args[1] in ("size",) and -2 <= k < 2:
                    return ("ny", "nx")[k]
                if b.args[1] == "resolution" and -2 <= k < 2:
                    return ("dx", "dy")[k]
                if b.args[1] == "skew" and -2 <= k < 2:
                    return ("sx", "sy")[k]
                if b.args[1] == "origin" and -2 <= k < 2:
                    return ("x0", "y0")[k]
        return None
    N = Norm(atom)
    A = {n: ratom(n) for n in names + ("ny", "nx")}
    want = [A["x0"] + A["ny"] * A["sx"], A["dx"], -A["sx"], A["y0"] + A["ny"] * A["dy"], A["sy"], -A["dy"]]
    label = ["left edge of the first line", "cell width", "x per line", "top edge of the first column", "y per column",
             "height per line"]
    n = 0
    for q in Interp(p, Flow()).run(f):
        if q.kind != "return":
            continue
        ev = {}
        for e in q.events:
            if e.kind == "mcall":
                ev.setdefault(e.term.args[1], []).append(e)
        if "Create" not in ev:
            continue
        n += 1
        for e in ev["Create"]:
            a = positional(e.term, ("utf8_path", "xsize", "ysize", "bands", "eType", "options"))
            for k, w in (("xsize", "nx"), ("ysize", "ny")):
                if k in a:
                    verdict(rep, "create", "%s %s" % (con, k), N, a[k], A[w], "the number of %s" %
                            ("columns" if w == "nx" else "rows"), where)
            b = a.get("bands")
            if b is not None:
                if b is mk("len", mk("attr", grid, "bands")) or b is mk("attr", grid, "nbands"):
                    rep.ok("write: the file has as many bands as the grid", where)
                elif is_const(b):
                    rep.bad("create", con + " bands", "the file has %s bands whatever the grid has" % cval(b), where)
                else:
                    rep.undec("write: number of bands")
            ty = a.get("eType")
            if ty is None:
                rep.bad("create", con + " type", "the file's data type is GDAL's default", where)
            elif ty.op == "call" and any(x is grid for x in walk(ty, set())) and any(
                    x.op == "attr" and x.args[1] == "dtype" for x in walk(ty, set())):
                rep.ok("write: the file's type follows the type of the values", where)
            elif ty.op in ("ext", "const"):
                rep.bad("create", con + " type", "the file's data type does not depend on the grid's", where)
            else:
                rep.undec("write: data type")
        tr = ev.get("SetGeoTransform", [])
        if not tr:
            rep.bad("georeference", con, "no geotransform is written on some path", where)
        for e in tr:
            x = e.term.args[2][0][1] if e.term.args[2] else None
            if x is None or x.op not in ("list", "tuple") or len(x.args) != 6 or any(y.op in ("star", "each") for y in x.args):
                rep.undec("write: geotransform")
                continue
            for i, y in enumerate(x.args):
                verdict(rep, "georeference", "%s element %d" % (con, i), N, y, want[i], label[i], where)
        crs = mk("attr", grid, "crs")
        pr = ev.get("SetProjection", []) + ev.get("SetSpatialRef", [])
        if pr:
            src = [x for e in q.events if e.kind in ("mcall", "call") for x in walk(e.term, set())
                   if x.op == "mcall" and x.args[1] in ("get_proj4", "get_wkt") and x.args[0] is crs]
            imp = [e.term for e in q.events if e.kind == "mcall" and e.term.args[1].startswith("ImportFrom")]
            if not imp and not src:
                rep.undec("write: projection")
            elif src and all(any(y in src for y in walk(t, set())) for t in imp):
                for t in imp:
                    how, got = t.args[1], [y.args[1] for y in walk(t, set()) if y in src]
                    if how == "ImportFromProj4" and "get_proj4" in got or how == "ImportFromWkt" and "get_wkt" in got:
                        rep.ok("write: the file's projection is the grid's system", where)
                    else:
                        rep.bad("projection", con, "%s is given the result of %s" % (how, got), where)
                    check_text(rep, con, t, where)
            else:
                rep.undec("write: projection")
        else:
            if defined(q.conds, crs):
                rep.bad("projection", con, "a grid's coordinate system is not written although it has a definition", where)
                continue
            guards = [(t, b) for t, b in q.conds if any(y.op == "mcall" and y.args[1] in ("get_proj4", "get_wkt")
                                                       or y is crs for y in walk(t, set()))]
            if guards:
                rep.ok("write: only systems without a definition are left out", where)
            else:
                rep.bad("projection", con, "the grid's coordinate system is not written", where)
        # bands
        wr = ev.get("WriteArray", [])
        if not wr:
            rep.undec("write: data")
        for e in wr:
            band_write(rep, p, con, e, ev, grid, where)
        nd = ev.get("SetNoDataValue", [])
        if not nd:
            rep.bad("nodata", con, "the grid's nodata value is not written", where)
        for e in nd:
            v = e.term.args[2][0][1] if e.term.args[2] else None
            if v is mk("attr", grid, "nodata"):
                rep.ok("write: the file's nodata value is the grid's", where)
            elif v is not None and (is_const(v) or v.op == "ext"):
                rep.bad("nodata", con, "the file's nodata value is not the grid's", where)
            else:
                rep.undec("write: nodata")
        wb = {e.term.args[0] for e in wr}
        nb = {e.term.args[0] for e in nd}
        if wr and nd and wb != nb:
            if all(b.op == "mcall" and b.args[1] == "GetRasterBand" and is_const(cargs(b)[0]) for b in nb):
                ok = all(cval(cargs(b)[0]) in (1, ) for b in nb)
                if not ok:
                    rep.bad("nodata", con + " bands", "nodata is set on a fixed band", where)
            else:
                rep.undec("write: bands of nodata")
    if not n:
        rep.undec("write: no path creates a dataset")


def defined(conds, crs):
    """the path has established that the system has a definition"""
    for c, b in conds:
        u, v = c, b
        while u.op == "not":
            u, v = u.args[0], not v
        if u.op == "mcall" and u.args[1] == "get_proj4" and u.args[0] is crs and v:
            return True
        if u.op == "len" and v and u.args[0].op == "mcall" and u.args[0].args[1] == "get_proj4":
            return True
        if u.op == "cmp" and u.args[0] == "==" and not v and any(is_const(x) and cval(x) in (0, "") for x in u.args[1:]) and \
                any(y.op == "mcall" and y.args[1] == "get_proj4" for y in walk(u, set())):
            return True
    return False


def check_text(rep, con, t, where):
    """replacements in the definition keep its meaning"""
    for y in walk(t, set()):
        if y.op == "mcall" and y.args[1] == "replace" and len(y.args[2]) >= 2:
            a, b = [x[1] for x in y.args[2][:2]]
            if is_const(a) and is_const(b):
                geo = ("lonlat", "longlat", "latlong", "latlon")
                if cval(a) in geo and cval(b) in geo:
                    rep.ok("%s: the definition is passed on with the same meaning" % con, where)
                elif cval(a) in geo:
                    rep.bad("projection", con + " definition", "%r is replaced with %r" % (cval(a), cval(b)), where)


def loop_index(t):
    """(iterable, offset, depth) of an index term idx(iterable)+c"""
    if t.op == "idx":
        return t.args[0], 0
    if t.op == "bin" and t.args[0] in ("+", "-"):
        a, b = t.args[1:]
        if is_const(a) and t.args[0] == "+":
            a, b = b, a
        if is_const(b) and isinstance(cval(b), int):
            r = loop_index(a)
            if r is not None:
                return r[0], r[1] + (cval(b) if t.args[0] == "+" else -cval(b))
    if t.op == "elem" and extname(t.args[0]) == "range":
        a = cargs(t.args[0])
        lo = 0
        if len(a) == 1:
            hi = a[0]
        else:
            if not (is_const(a[0]) and isinstance(cval(a[0]), int)) or len(a) > 2:
                return None
            lo, hi = cval(a[0]), a[1]
        return t.args[0], lo - lo
    return None


def reversed_index(i):
    """the index decreases as the loop goes on"""
    ids = [x for x in walk(i, set()) if x.op == "idx" or x.op == "elem" and extname(x.args[0]) == "range"]
    if len(ids) != 1 or i is ids[0]:
        return False
    N = Norm(lambda t: "i" if t is ids[0] else None)
    r = N(i) + ratom("i")
    atoms = {a for poly in (r.n, r.d) for mono in poly for a, _ in mono}
    return "i" not in atoms


def band_write(rep, p, con, e, ev, grid, where):
    t = e.term
    a = positional(t, ("array", "xoff", "yoff"))
    x = a.get("array")
    if x is None:
        rep.undec("write: data written")
        return
    src = []

    def source(t):
        if t.op == "attr" and t.args[0] is grid and t.args[1] in ("values",):
            return True
        return t is grid
    fl = Flips(source)
    par = fl(x)
    if par is None:
        rep.undec("write: orientation of the rows written")
    elif par == 1:
        rep.ok("write: the first line of the file is the grid's last row", where)
    else:
        rep.bad("row-order", con, "the first line of the file is the grid's first row", where)
    dropped(rep, con, x, where)
    for k in ("xoff", "yoff"):
        if k in a and is_const(a[k]) and cval(a[k]) != 0:
            rep.bad("layout", "%s %s" % (con, k), "data are written at an offset", where)
    # band index
    b = t.args[0]
    if b.op != "mcall" or b.args[1] != "GetRasterBand":
        rep.undec("write: band written to")
        return
    i = cargs(b)[0]
    key = None
    for y in walk(x, set()):
        if y.op == "item" and y.args[1].op == "tuple" and y.args[0].op in ("param", "attr"):
            key = y.args[1].args
    if is_const(i):
        rep.bad("band-order", con, "every band is written to band %s" % cval(i), where)
        return
    if reversed_index(i) and key is not None and len(key) == 3 and loop_index(key[2]) is not None:
        rep.bad("band-order", con, "grid bands are written in reverse order", where)
        return
    li = loop_index(i)
    lk = loop_index(key[2]) if key is not None and len(key) == 3 else None
    if key is not None and len(key) == 3 and is_const(key[2]):
        rep.bad("band-order", con, "band %s is written to every band of the file" % cval(key[2]), where)
        return
    if li is None or lk is None or li[0] is not lk[0]:
        rep.undec("write: band order")
        return
    d = li[1] - lk[1]
    lo = lk[1]
    r = start_range(li[0])
    if r is None:
        rep.undec("write: band order")
        return
    if d != 1:
        rep.bad("band-order", con, "grid band i is written to file band i%+d" % d, where)
    elif lo + r != 0:
        rep.bad("band-order", con, "the bands written start with grid band %d" % (lo + r), where)
    else:
        rep.ok("write: grid band i is file band i+1", where)
    if key is not None:
        for k, nm in ((key[0], "row"), (key[1], "column")):
            if k.op == "slice" and not all(is_const(z) and cval(z) is None for z in k.args[:2]):
                rep.bad("layout", "%s %ss" % (con, nm), "only a part of the %ss is written" % nm, where)
        if key[1].op == "slice" and is_const(key[1].args[2]) and cval(key[1].args[2]) not in (None, 1):
            rep.bad("layout", "%s columns" % con, "columns are written in another order", where)


def start_range(it):
    n = extname(it)
    if n == "range":
        a = cargs(it)
        if len(a) == 1:
            return 0
        if len(a) == 2 and is_const(a[0]):
            return cval(a[0])
        return None
    return 0


def dropped(rep, con, x, where):
    for y in walk(x, set()):
        if y.op == "mcall" and y.args[1] in ("squeeze", "ravel", "flatten") or extname(y) in ("numpy.squeeze", "numpy.ravel"):
            rep.bad("row-order", con + " squeeze", "axes of length one are dropped before the rows are reversed: a single "
                    "row is mirrored", where)
        if y.op == "attr" and y.args[1] == "T" or extname(y) == "numpy.transpose" or \
                y.op == "mcall" and y.args[1] == "transpose":
            rep.bad("layout", con + " transpose", "rows and columns are exchanged", where)


def verdict(rep, rule, con, N, t, want, what, where):
    r = N(t)
    if same(r, want):
        rep.ok("%s: %s" % (con, what), where)
        return
    inv = {a: x for x, a in N.keys.items()}
    foreign = [inv[a] for poly in (r.n, r.d) for mono in poly for a, _ in mono if a in inv]
    if foreign:
        rep.undec("%s: %s" % (con, what))
    else:
        rep.bad(rule, con, "not %s" % what, where)


# ---------------------------------------------------------------- reader
def is_read(t):
    return t.op == "call" and t.args[0].op == "func" and t.args[0].args[0].startswith(GDALMOD + ".") \
        and t.args[0].args[0].endswith(".read")


def headers(rep, p):
    """distinct values of the header dictionary returned by _gdal.read"""
    f = p.modules[GDALMOD].funcs.get("read")
    if f is None:
        return None, []
    it = Interp(p, Flow())
    out, paths = [], []
    for q in it.run(f):
        if q.kind != "return":
            continue
        v = it.reify(q.value, q.state)
        if v.op not in ("tuple", "list") or len(v.args) != 2:
            rep.undec("read: result")
            continue
        paths.append((q, v, it))
        d = v.args[1]
        if d.op == "dict" and all(x.op == "kv" and is_const(x.args[0]) for x in d.args):
            h = {cval(x.args[0]): x.args[1] for x in d.args}
            if h not in out:
                out.append(h)
        else:
            rep.undec("read: header")
    return f, out, paths


def read_header(rep, f, hs):
    """values of the header mean what their keys say (only keys later used matter)"""
    rep.fn("_gdal.read")


def resolve(t, h):
    """replace items of the header of a read file by what the reader put there"""
    m = {}
    for x in walk(t, set()):
        if x.op == "item" and is_const(x.args[1]) and isinstance(cval(x.args[1]), str):
            b = x.args[0]
            if b.op == "item" and is_const(b.args[1]) and b.args[0].op == "list":
                inner = b.args[0].args[0] if len(b.args[0].args) == 1 else None
                if inner is not None and inner.op == "each":
                    b = inner.args[3]
            if b.op == "elem":
                inner = b.args[0]
                if inner.op == "list" and len(inner.args) == 1 and inner.args[0].op == "each":
                    b = inner.args[0].args[3]
            if b.op == "item" and is_const(b.args[1]) and cval(b.args[1]) in (1, -1) and is_read(b.args[0]):
                if cval(x.args[1]) in h:
                    m[x] = h[cval(x.args[1])]
    if not m:
        return t
    u = subst(t, m)
    # items of nested dictionaries
    for _ in range(4):
        m = {}
        for x in walk(u, set()):
            if x.op == "item" and x.args[0].op == "dict" and is_const(x.args[1]):
                for kv in x.args[0].args:
                    if kv.op == "kv" and kv.args[0] is x.args[1]:
                        m[x] = kv.args[1]
        if not m:
            break
        u = subst(u, m)
    return u


def gt_atom(t):
    s = size_atom(t)
    if s:
        return s
    if t.op == "item" and is_const(t.args[1]) and t.args[0].op == "mcall" and t.args[0].args[1] == "GetGeoTransform":
        k = cval(t.args[1])
        if isinstance(k, int) and -6 <= k < 6:
            return "g%d" % (k % 6)
    return None


GT = [ratom("g%d" % i) for i in range(6)]
NY = ratom("ny")
WANT = {"xllcorner": GT[0] + NY * GT[2], "yllcorner": GT[3] + NY * GT[5], "dx": GT[1], "dy": -GT[5], "sx": -GT[2],
        "sy": GT[4]}
MEAN = {"xllcorner": "x of the grid's origin is that of the lower left corner of the last line",
        "yllcorner": "y of the grid's origin is that of the lower left corner of the last line",
        "dx": "cell width", "dy": "cell height (upwards)", "sx": "x per row upwards", "sy": "y per column"}


def reader(rep, p, name, hs):
    m = p.modules["karta.raster.read"]
    f = m.funcs.get(name)
    if f is None:
        rep.undec("no " + name)
        return
    rep.fn("read." + name)
    con, where = name, "%s (%s)" % (f.where, f.qual)
    it = Interp(p, Flow())
    n = 0
    systems = set()
    for q in it.run(f):
        if q.kind != "return":
            continue
        v = it.reify(q.value, q.state)
        if v.op != "new" or not v.args[0].args[0].endswith("RegularGrid"):
            rep.undec("%s: result" % con)
            continue
        n += 1
        a = dict(v.args[1])
        tr = a.get("transform")
        for h in hs:
            t = resolve(tr, h) if tr is not None else None
            if t is None or t.op not in ("dict", "tuple", "list") or any(x.op in ("each", "star") for x in t.args):
                rep.undec("%s: transform" % con)
                continue
            if t.op == "dict":
                d = {cval(x.args[0]): x.args[1] for x in t.args if x.op == "kv" and is_const(x.args[0])}
            else:
                d = dict(zip(("xllcorner", "yllcorner", "dx", "dy", "sx", "sy"), t.args))
            N = Norm(gt_atom)
            for k in ("xllcorner", "yllcorner", "dx", "dy", "sx", "sy"):
                if k not in d:
                    rep.undec("%s: %s" % (con, k))
                    continue
                verdict(rep, "georeference", "%s %s" % (con, k), N, d[k], WANT[k], MEAN[k], where)
            nd = a.get("nodata_value")
            if nd is None:
                rep.bad("nodata", con, "the file's nodata value is not given to the grid", where)
            else:
                nd = resolve(nd, h)
                if nd.op == "mcall" and nd.args[1] == "GetNoDataValue":
                    rep.ok("%s: nodata is the file's" % con, where)
                elif is_const(nd) or nd.op in ("ext", "attr") and not any(
                        x.op == "mcall" and x.args[1] == "GetNoDataValue" for x in walk(nd, set())):
                    rep.bad("nodata", con, "the grid's nodata value is not the file's", where)
                else:
                    rep.undec("%s: nodata" % con)
            conds = [(resolve(c, h), b) for c, b in q.conds]
            system(rep, con, resolve(a["crs"], h) if "crs" in a else None, conds, systems, where)
        bands = a.get("bands")
        if name == "from_geotiffs":
            each_file(rep, con, bands, where)
        elif bands is not None and bands.op == "item" and is_read(bands.args[0]) and cval(bands.args[1]) == 0:
            rep.ok("%s: the grid's bands are the file's" % con, where)
            c = dict(bands.args[0].args[1])
            ib = c.get("ibands")
            if ib is mk("param", "ibands"):
                rep.ok("%s: the bands asked for are the ones read" % con, where)
            elif ib is None or is_const(ib):
                rep.bad("band-order", con + " ibands", "the bands asked for are ignored", where)
        elif bands is None:
            rep.bad("layout", con, "the grid is made without the file's bands", where)
        else:
            rep.undec("%s: bands" % con)
    if not n:
        rep.undec("%s: no grid returned" % con)
    if name == "from_geotiffs":
        compared(rep, f, where)


def system(rep, con, crs, conds, systems, where):
    """the grid's system is the one the file describes"""
    if crs is None:
        rep.bad("projection", con, "the file's coordinate system is not used", where)
        return
    has = [(c, b) for c, b in conds if any(x.op == "mcall" and x.args[1] == "ExportToProj4" for x in walk(c, set()))]
    empty = None
    for c, b in has:
        u, v = c, b
        while u.op == "not":
            u, v = u.args[0], not v
        if u.op == "cmp" and u.args[0] == "==" and any(is_const(x) and cval(x) in (0, "") for x in u.args[1:]):
            empty = v
    if crs.op == "global" and crs.args[1] == "Cartesian":
        sr_known = any(x.op == "mcall" and x.args[1] == "ExportToProj4" for c, b in conds for x in walk(c, set()))
        if not sr_known or empty is True:
            rep.ok("%s: files without a system are Cartesian" % con, where)
        elif empty is False:
            rep.bad("projection", con, "files with a coordinate system become Cartesian", where)
        else:
            rep.undec("%s: Cartesian" % con)
        return
    if crs.op != "new":
        rep.undec("%s: coordinate system" % con)
        return
    cls = crs.args[0].args[0].split(".")[-1]
    vals = [v for _, v in crs.args[1]]
    if cls == "ProjectedCRS":
        d = arg(crs, "proj", 0) or (vals[0] if vals else None)
        src = dict(crs.args[1]).get("proj")
        src = src if src is not None else d
        if src is not None and src.op == "mcall" and src.args[1] == "ExportToProj4":
            rep.ok("%s: projected systems have the file's definition" % con, where)
        elif src is not None and is_const(src) and not any(x.op == "mcall" for x in walk(src, set())):
            if cval(src) and empty is not True:
                rep.undec("%s: projected definition" % con)
        else:
            rep.undec("%s: projected definition" % con)
        for c, b in conds:
            if b and c.op in ("or", "in") and any(is_const(x) and cval(x) in ("lonlat", "longlat") for x in walk(c, set())):
                rep.bad("projection", con + " kind", "geographical files get projected systems", where)
    elif cls == "GeographicalCRS":
        src = dict(crs.args[1]).get("spheroid") or dict(crs.args[1]).get(0)
        s, vs = text_of(src) if src is not None else (None, [])
        if s is None:
            rep.undec("%s: geographical definition" % con)
            return
        meaning = {"GetSemiMajor": "a", "GetSemiMinor": "b", "GetInvFlattening": "rf"}
        import re
        n = 0
        for k, i in re.findall("\\+(\\w+)=\0(\\d+)\0", s):
            x = vs[int(i)]
            if x.op == "mcall" and x.args[1] in meaning:
                n += 1
                if meaning[x.args[1]] == k:
                    rep.ok("%s: +%s is the file's" % (con, k), where)
                else:
                    rep.bad("projection", "%s +%s" % (con, k), "+%s is %s" % (k, x.args[1]), where)
            elif is_const(x):
                n += 1
        if n < 2 and not any(x.op == "mcall" and x.args[1].startswith("ExportTo") for x in vs):
            rep.undec("%s: geographical definition" % con)
    else:
        rep.undec("%s: coordinate system" % con)


def each_file(rep, con, bands, where):
    if bands is not None and bands.op == "list" and bands.args and all(
            x.op == "star" and extname(x.args[0]) == "reversed" for x in bands.args):
        rep.bad("band-order", con, "the files' order is reversed", where)
        return
    if bands is None or bands.op != "list" or len(bands.args) != 1 or bands.args[0].op != "each":
        rep.undec("%s: bands" % con)
        return
    e = bands.args[0]
    it, val = e.args[0], e.args[3]
    base = it
    while extname(base) in ("enumerate", "list", "tuple", "iter"):
        base = cargs(base)[0]
    if extname(base) in ("reversed", "sorted", "set"):
        rep.bad("band-order", con, "the files' order is not the bands' order", where)
        return
    k = []
    x = val
    while x.op == "item":
        k.append(x.args[1])
        x = x.args[0]
    if not is_read(x) or not all(is_const(c) for c in k) or len(k) != 2:
        rep.undec("%s: bands" % con)
        return
    a = dict(x.args[1])
    ib = a.get("ibands")
    first = cval(k[0])
    if cval(k[1]) != 0:
        rep.bad("layout", con, "the bands are not the file's bands", where)
    elif first == 0 and ib is not None and is_const(ib) and cval(ib) == 1:
        rep.ok("%s: band i is the first band of file i" % con, where)
    elif first == 0 and ib is not None and is_const(ib) and isinstance(cval(ib), int) and cval(ib) > 1 or first != 0:
        rep.bad("band-order", con, "bands are not the first bands of the files", where)
    elif ib is None and first == 0:
        rep.ok("%s: band i is the first band of file i" % con, where)
    else:
        rep.undec("%s: bands" % con)


def compared(rep, f, where):
    """the headers of several files are compared in everything the one grid takes from the first"""
    keys, found = set(), 0
    for node in ast.walk(f.node):
        if not isinstance(node, (ast.For, ast.If, ast.comprehension, ast.GeneratorExp)):
            continue
        if isinstance(node, ast.For) and isinstance(node.iter, (ast.Tuple, ast.List)) and isinstance(node.target, ast.Name):
            names = {e.value for e in node.iter.elts if isinstance(e, ast.Constant) and isinstance(e.value, str)}
            v = node.target.id
            for x in ast.walk(node):
                if isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.NotEq, ast.Eq)):
                    sides = [x.left, x.comparators[0]]
                    if all(isinstance(s, ast.Subscript) and isinstance(s.slice, ast.Name) and s.slice.id == v for s in sides):
                        keys |= names
                        found += 1
    if not found:
        rep.undec("from_geotiffs: comparison of the headers")
        return
    need = ["nx", "ny", "xulcorner", "yulcorner", "dx", "dy", "sx", "sy", "srs"]
    missing = [k for k in need if k not in keys]
    if missing:
        rep.bad("georeference", "from_geotiffs comparison", "files differing in %s are combined" % ", ".join(missing), where)
    else:
        rep.ok("from_geotiffs: files of another size, transform or system are refused", where)


# ---------------------------------------------------------------- bands
def in_memory(rep, f, paths):
    con, where = "read", "%s (%s)" % (f.where, f.qual)
    n = file_bands = 0
    for q, v, it in paths:
        bands = v.args[0]
        sets = [e for e in q.events if e.kind == "mcall" and e.term.args[1] == "setblock"]
        for e in sets:
            n += 1
            t = it.reify(e.term, q.state)
            a = positional(t, ("yoff", "xoff", "array"))
            for k in ("yoff", "xoff"):
                if k in a and not (is_const(a[k]) and cval(a[k]) == 0):
                    (rep.bad if is_const(a[k]) else lambda *z: rep.undec("read: " + k))(
                        "layout", "%s %s" % (con, k), "values are stored at an offset", where)
            x = a.get("array")
            if x is None:
                rep.undec("read: data")
                continue
            fl = Flips(lambda t: t.op == "mcall" and t.args[1] == "ReadAsArray")
            par = fl(x)
            if par is None:
                rep.undec("read: orientation of the rows read")
            elif par == 1:
                rep.ok("read: the file's first line is the grid's last row", where)
            else:
                rep.bad("row-order", con, "the file's first line becomes the grid's first row", where)
            dropped(rep, con, x, where)
            ra = fl.found
            if ra is not None:
                pair(rep, con, t.args[0], ra.args[0], where)
        for e in q.events:
            t = e.term
            if e.kind == "call" and t.op == "call" and t.args[0].op == "param" and t.args[0].args[0] == "bandclass":
                t = it.reify(t, q.state)
                c = cargs(t)
                if c and c[0].op in ("tuple", "list") and len(c[0].args) == 2:
                    got = [size_atom(x) for x in c[0].args]
                    if got == ["ny", "nx"]:
                        rep.ok("read: bands are (rows, columns)", where)
                    elif got == ["nx", "ny"]:
                        rep.bad("layout", con + " size", "bands are made with rows and columns exchanged", where)
                    else:
                        rep.undec("read: band size")
                if len(c) > 1 and c[1].op in ("ext", "const"):
                    rep.bad("type", con, "bands are made with a fixed type", where)
                elif len(c) > 1 and any(x.op == "attr" and x.args[1] == "DataType" for x in walk(c[1], set())):
                    rep.ok("read: bands have the file's type", where)
            if e.kind in ("mcall",) and t.args[1] == "GetRasterBand":
                order(rep, con, it.reify(cargs(t)[0], q.state), where)
            if t.op == "call" and extname(t) in ("numpy.empty", "numpy.zeros"):
                c = it.reify(t, q.state)
                s = cargs(c)[0]
                if s.op in ("tuple", "list"):
                    got = [size_atom(x) for x in s.args]
                    if got == ["ny", "nx"]:
                        rep.ok("read: buffers are (rows, columns)", where)
                    elif got == ["nx", "ny"]:
                        rep.bad("layout", con + " buffer", "buffers are made with rows and columns exchanged", where)
        if not sets and bands.op == "list" and len(bands.args) == 1 and bands.args[0].op == "each":
            file_bands += 1
    if not n:
        rep.undec("read: in-memory bands")


def order(rep, con, i, where):
    """bands are read in the order asked for, all of them by default"""
    if i is mk("param", "ibands"):
        rep.ok("read: a single band asked for is read", where)
        return
    if i.op != "elem":
        if is_const(i):
            rep.bad("band-order", con, "always band %s of the file is read" % cval(i), where)
        else:
            rep.undec("read: band order")
        return
    it = i.args[0]
    while extname(it) in ("list", "tuple", "iter"):
        it = cargs(it)[0]
    if it is mk("param", "ibands") or it.op == "list" and it.args and it.args[0] is mk("param", "ibands"):
        rep.ok("read: bands come in the order asked for", where)
        return
    if extname(it) == "range":
        a = cargs(it)
        N = Norm(lambda t: "nb" if t.op == "attr" and t.args[1] == "RasterCount" else None)
        if len(a) == 2 and same(N(a[0]), rconst(1)) and same(N(a[1]), ratom("nb") + rconst(1)):
            rep.ok("read: by default all bands are read in order", where)
        elif len(a) <= 2 and all(not N.keys for x in a if N(x) is not None):
            rep.bad("band-order", con, "by default not all bands are read", where)
        else:
            rep.undec("read: default bands")
        return
    if extname(it) in ("reversed", "sorted", "set"):
        rep.bad("band-order", con, "bands are not read in the order asked for", where)
        return
    rep.undec("read: band order")


def pair(rep, con, recv, rb, where):
    """values of the k-th file band asked for go to the k-th band"""
    # recv: item(bands, idx(rasterbands)) or elem(zip)
    if recv.op == "item":
        i = recv.args[1]
        if is_const(i):
            rep.bad("band-order", con + " pairing", "every band read is stored in band %s" % cval(i), where)
            return
        if reversed_index(i):
            rep.bad("band-order", con + " pairing", "bands are stored in reverse order", where)
            return
        li = loop_index(i)
        if li is None:
            rep.undec("read: pairing of bands")
            return
        if li[1] != 0:
            rep.bad("band-order", con + " pairing", "the k-th band read is stored in band k%+d" % li[1], where)
            return
        if rb.op == "mcall" and rb.args[1] == "GetRasterBand" and cargs(rb)[0].op == "elem":
            rep.ok("read: the k-th band read is stored in the k-th band", where)
        elif rb.op == "item" and rb.args[1] is i:
            rep.ok("read: the k-th band read is stored in the k-th band", where)
        elif rb.op == "item" and is_const(rb.args[1]):
            rep.bad("band-order", con + " pairing", "the same file band is stored in every band", where)
        elif rb.op == "elem":
            rep.ok("read: the k-th band read is stored in the k-th band", where)
        else:
            rep.undec("read: pairing of bands")
        return
    if recv.op == "call" and rb.op == "mcall" and cargs(rb)[0] is mk("param", "ibands"):
        rep.ok("read: a single band read is stored in the single band", where)
        return
    rep.undec("read: pairing of bands")


def file_band(rep, p):
    c = p.modules[GDALMOD].classes.get("GdalFileBand")
    if c is None:
        rep.undec("no file band")
        return
    f = c.lookup("getblock")
    where = "%s (%s)" % (f.where, f.qual)
    rep.fn("GdalFileBand.getblock")
    con = "GdalFileBand.getblock"
    names = [getattr(x, "name", x) for x in f.pos][1:5]
    slot = dict(zip([mk("param", n) for n in names], ("yoff", "xoff", "bny", "bnx")))

    def atom(t):
        return slot.get(t) or size_atom(t)
    A = {n: ratom(n) for n in ("yoff", "xoff", "bny", "bnx", "ny", "nx")}
    want = {"xoff": (A["xoff"], "the window's first column"),
            "yoff": (A["ny"] - A["yoff"] - A["bny"], "the file line of the window's last row"),
            "xsize": (A["bnx"], "the window's columns"), "ysize": (A["bny"], "the window's rows")}
    n = 0
    for q in Interp(p, Flow()).run(f, c):
        if q.kind != "return":
            continue
        n += 1
        fl = Flips(lambda t: t.op == "mcall" and t.args[1] == "ReadAsArray")
        par = fl(q.value)
        if par is None:
            rep.undec("%s: orientation" % con)
        elif par == 1:
            rep.ok("%s: rows are reversed once" % con, where)
        else:
            rep.bad("row-order", con, "rows of a window are in the file's order", where)
        dropped(rep, con, q.value, where)
        if fl.found is None:
            continue
        a = positional(fl.found, ("xoff", "yoff", "xsize", "ysize"))
        for k, alias in (("xsize", "win_xsize"), ("ysize", "win_ysize")):
            if alias in a:
                a[k] = a[alias]
        for k, (w, what) in want.items():
            if k not in a:
                rep.undec("%s: %s" % (con, k))
                continue
            verdict(rep, "window", "%s %s" % (con, k), Norm(atom), a[k], w, what, where)
    if not n:
        rep.undec("%s: no result" % con)
    # iteration: rows bottom first
    f = c.lookup("__iter__")
    if f is not None:
        con, where = "GdalFileBand.__iter__", "%s (%s)" % (f.where, f.qual)
        rep.fn(con)
        for q in Interp(p, Flow()).run(f, c):
            for e in q.events:
                if e.kind != "yield":
                    continue
                ra = [x for x in walk(e.term, set()) if x.op == "mcall" and x.args[1] == "ReadAsArray"]
                if len(ra) != 1:
                    rep.undec("%s: rows" % con)
                    continue
                a = positional(ra[0], ("xoff", "yoff", "xsize", "ysize"))
                idx = [x for x in walk(a.get("yoff", const(0)), set()) if x.op in ("elem", "idx")]
                if len(idx) != 1 or idx[0].op != "elem" or extname(idx[0].args[0]) != "range" or \
                        len(cargs(idx[0].args[0])) != 1:
                    rep.undec("%s: rows" % con)
                    continue
                N = Norm(lambda t: "i" if t is idx[0] else size_atom(t))
                verdict(rep, "window", con + " count", N, cargs(idx[0].args[0])[0], A["ny"], "one row for each of the rows", where)
                verdict(rep, "window", con + " row", N, a["yoff"], A["ny"] - ratom("i") - rconst(1), "the i-th row", where)
                for k, w in (("xoff", rconst(0)), ("xsize", A["nx"]), ("ysize", rconst(1))):
                    if k in a:
                        verdict(rep, "window", "%s %s" % (con, k), N, a[k], w, "whole rows", where)
    f = c.lookup("size")
    if f is not None:
        for q in Interp(p, Flow()).run(f, c):
            if q.kind == "return" and q.value.op in ("tuple", "list"):
                got = [size_atom(x) for x in q.value.args]
                w = "%s (%s)" % (f.where, f.qual)
                if got == ["ny", "nx"]:
                    rep.ok("GdalFileBand.size: (rows, columns)", w)
                elif got == ["nx", "ny"]:
                    rep.bad("layout", "GdalFileBand.size", "rows and columns are exchanged", w)


# ---------------------------------------------------------------- types
def numpy_name(t):
    if t is not None and t.op == "ext" and t.args[0].startswith("numpy."):
        return t.args[0][6:]
    if t is not None and is_const(t) and isinstance(cval(t), str):
        return cval(t)
    if extname(t) == "numpy.dtype":
        return numpy_name(cargs(t)[0])
    return None


def types(rep, p):
    m = p.modules[GDALMOD]
    f, g = m.funcs.get("gdal_type"), m.funcs.get("numpy_dtype")
    if f is None or g is None:
        rep.undec("type tables")
        return
    rep.fn("_gdal.gdal_type")
    rep.fn("_gdal.numpy_dtype")
    w1, w2 = "%s (%s)" % (f.where, f.qual), "%s (%s)" % (g.where, g.qual)
    fwd = {}
    for q in Interp(p, Flow()).run(f):
        if q.kind != "return" or q.value.op != "ext" or ".GDT_" not in q.value.args[0]:
            continue
        y = q.value.args[0].split(".GDT_")[1]
        for c, b in reversed(q.conds):
            if not b:
                continue
            for x in walk(c, set()):
                if x.op == "cmp" and x.args[0] == "==":
                    for s in x.args[1:]:
                        k = numpy_name(s)
                        if k and k not in fwd:
                            fwd[k] = y
                if x.op == "in" and x.args[1].op in ("tuple", "list", "set"):
                    for s in x.args[1].args:
                        k = numpy_name(s)
                        if k and k not in fwd:
                            fwd[k] = y
            break
    tree = ast.parse(m.tree) if isinstance(m.tree, str) else m.tree
    table_f, table_b = {}, {}
    for st in tree.body:
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Dict):
            for k, v in zip(st.value.keys, st.value.values):
                kn = name_of(k)
                vn = name_of(v)
                if kn and vn:
                    if vn[0] == "np" and kn[0] in ("str", "gdt"):
                        table_b[kn[1]] = vn[1]
                    elif kn[0] == "np" and vn[0] == "gdt":
                        table_f[kn[1]] = vn[1]
    if not fwd:
        fwd = table_f
    if not fwd or not table_b:
        rep.undec("type tables not recognised")
        return
    lossy = {"int8": "Byte", "int64": "Int32"}
    exact = {"Byte": "uint8", "UInt16": "uint16", "Int16": "int16", "UInt32": "uint32", "Int32": "int32", "Float32": "float32",
             "Float64": "float64", "CFloat32": "complex64", "CFloat64": "complex128", "UInt64": "uint64", "Int64": "int64",
             "Int8": "int8"}
    for k, y in sorted(fwd.items()):
        back = table_b.get(y)
        if back is None:
            rep.bad("type", "type %s" % y, "numpy %s is written as %s, which the reader does not know" % (k, y), w1)
        elif back == k:
            rep.ok("type %s is written as %s and read as %s" % (k, y, back), w1)
        elif lossy.get(k) == y and exact.get(y) == back:
            rep.ok("type %s is written as %s (documented)" % (k, y), w1)
        else:
            rep.bad("type", "type %s" % k, "numpy %s is written as %s and read as %s" % (k, y, back), w1)
    for y, k in sorted(table_b.items()):
        if y in exact and exact[y] == k:
            rep.ok("file type %s is read as %s" % (y, k), w2)
        elif y in ("CInt16", "CInt32") and k.startswith("complex"):
            rep.ok("file type %s is read as %s" % (y, k), w2)
        elif y in exact:
            rep.bad("type", "file type %s" % y, "%s is read as %s" % (y, k), w2)
    for k in ("uint8", "uint16", "int16", "uint32", "int32", "float32", "float64", "complex64", "complex128"):
        if k not in fwd:
            rep.bad("type", "type %s" % k, "grids of %s are not written" % k, w1)
    for y in ("Byte", "UInt16", "Int16", "UInt32", "Int32", "Float32", "Float64", "CFloat32", "CFloat64"):
        if y not in table_b:
            rep.bad("type", "file type %s" % y, "files of %s are not read" % y, w2)


def name_of(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return ("str", e.value)
    if isinstance(e, ast.Attribute):
        if e.attr.startswith("GDT_"):
            return ("gdt", e.attr[4:])
        return ("np", e.attr)
    if isinstance(e, ast.Call) and e.args:
        return name_of(e.args[0])
    return None


def geodetic(rep, p):
    """the test for geographical definitions knows PROJ's names"""
    f = p.modules["karta.raster.read"].funcs.get("proj4_isgeodetic")
    if f is None:
        return
    names = {n.value for n in ast.walk(f.node) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    where = "%s (%s)" % (f.where, f.qual)
    if not any(n in "longlat" for n in names if n):
        rep.bad("projection", "proj4_isgeodetic", "PROJ's longlat definitions are not recognised", where)
    else:
        rep.ok("proj4_isgeodetic: longlat definitions are geographical", where)


def creation(rep, p):
    g = p.modules["karta.raster.grid"].classes.get("RegularGrid")
    f = g.lookup("to_geotiff") if g else None
    if f is None:
        rep.undec("no to_geotiff")
        return
    where = "%s (%s)" % (f.where, f.qual)
    rep.fn("RegularGrid.to_geotiff")
    for q in Interp(p, Policy()).run(f, g):
        for e in q.events:
            t = e.term
            if e.kind == "call" and t.args[0].op == "func" and t.args[0].args[0] == GDALMOD + ".write":
                a = dict(t.args[1])
                for k in ("fnm", "compress", "tiled"):
                    v = a.get(k)
                    if v is mk("param", k):
                        rep.ok("to_geotiff: %s is passed on" % k, where)
                    elif v is None or is_const(v):
                        rep.bad("ineffective", "to_geotiff %s" % k, "the argument %s is not passed on" % k, where)
                if a.get("grid") is mk("param", "self"):
                    rep.ok("to_geotiff writes the grid", where)


def check(repo=None):
    rep = Report("C09", RULE)
    rep.minimum = 4
    rep.assumptions = ["GDAL: x = g0 + column*g1 + line*g2, y = g3 + column*g4 + line*g5, lines from the top; ReadAsArray "
                       "takes (xoff, yoff, xsize, ysize); bands are numbered from 1"]
    p = Program(repo, pyx=False)

    def guard(what, fn, *a):
        try:
            return fn(*a)
        except Exception as e:
            rep.undec("%s: %s %s" % (what, type(e).__name__, str(e)[:80]))
    guard("write", writer, rep, p)
    r = guard("read", headers, rep, p)
    if r:
        f, hs, paths = r
        for name in ("read_geotiff", "from_geotiffs"):
            guard(name, reader, rep, p, name, hs or [{}])
        if f is not None:
            rep.fn("_gdal.read")
            guard("read", in_memory, rep, f, paths)
    guard("file band", file_band, rep, p)
    guard("types", types, rep, p)
    guard("geodetic", geodetic, rep, p)
    guard("to_geotiff", creation, rep, p)
    return rep
