"""C19: sampling uses the cells around the position and never reads outside the grid."""
from ..bilinear import KERNELS, stores, blend_value, expected, inside, below, is_na, truncated
from ..interp import Interp
from ..loader import Program
from ..report import Report
from ..results import returned
from ..terms import T, mk, is_const, cval, walk, arg, NONE, children
from ..rasterspec import qname
from .c11 import P11, nodata_of
from .c24 import ext, nodata_of2

TECHNIQUE = "path-wise polynomial normal forms of interpolation weights, bound facts for every cell read"
RULE = ("Every cell a sampler reads has, on its path, a lower and an upper bound test against the extent of the same "
        "axis; positions that fail a test get the nodata value. The bilinear kernels blend exactly the four cells "
        "around the position with the weights (1-|i-a|)(1-|j-b|) (compared as polynomials, so they sum to one). "
        "Windows read ahead of sampling contain every cell that is needed, indices are shifted by exactly the "
        "window's origin, and every band is sampled with its own values, nodata and a type that holds them.")

WIDTH = {"int8": ("i", 8), "int16": ("i", 16), "int32": ("i", 32), "int64": ("i", 64), "uint8": ("u", 8),
         "uint16": ("u", 16), "uint32": ("u", 32), "uint64": ("u", 64), "float32": ("f", 32), "float64": ("f", 64),
         "float16": ("f", 16)}


def holds(dst, src):
    """can type dst represent the values of src (64-bit integers in doubles accepted)"""
    a, b = WIDTH.get(dst), WIDTH.get(src)
    if a is None or b is None:
        return None
    if a[0] == b[0]:
        return a[1] >= b[1]
    if a[0] == "f":
        return a[1] == 64 or b[1] < 24
    if a[0] == "i" and b[0] == "u":
        return a[1] > b[1]
    return False


def dtype_name(t):
    if t.op in ("ext", "builtin"):
        return t.args[0].split(".")[-1]
    if is_const(t) and isinstance(cval(t), str):
        return cval(t)
    return None


def check_kernels(p, rep):
    for name in KERNELS:
        f, bs = stores(p, name)
        if f is None:
            continue
        rep.fn(f.qual)
        for b in bs:
            where = b.e.where
            lo, hi = b.corner.facts(b.conds)
            if b.reads and not is_na(b.value):
                for x, r, c in b.reads:
                    for nf, ln, ax in ((r, "m", "row"), (c, "n", "column")):
                        if inside(nf, lo) and below(nf, ln, hi):
                            rep.ok("%s: %s of every cell read is within bounds" % (name, ax), where)
                        elif b.corner.unknown:
                            rep.undec("%s: index arithmetic not recognised" % name)
                        else:
                            miss = "lower" if not inside(nf, lo) else "upper"
                            rep.bad("bounds", "%s %s %s" % (name, ax, miss),
                                    "a cell is read whose %s is not tested against the %s bound" % (ax, miss), where)
                if b.corner.unknown:
                    rep.undec("%s: index arithmetic not recognised" % name)
                    continue
                for a in truncated(b):
                    rep.bad("truncation", "%s %s" % (name, a), "positions up to one cell outside the grid are truncated "
                            "on to the first %s" % ("row" if a == "i" else "column"), where)
                v = blend_value(b)
                if any(v.same(x) for x in expected(b)):
                    rep.ok("%s: blend of the four cells around the position" % name, where)
                else:
                    rep.bad("weights", "%s weights" % name, "the blend is not sum Z[a,b](1-|i-a|)(1-|j-b|) over the "
                            "four cells around the position when i %s and j %s a whole number"
                            % tuple("is" if b.corner.integral.get(a) else "is not" for a in "ij"), where)
            elif is_na(b.value):
                # nodata only for positions outside and for missing cells
                out = any(c.op == "cmp" and c.args[0] in ("<", "<=") for c, t in b.conds)
                missing = any(t and c.op == "cmp" and c.args[0] == "==" and any(is_na(x) for x in c.args[1:])
                              for c, t in b.conds)
                strict = True
                if not missing:
                    for c, t in b.conds:
                        if c.op == "cmp" and c.args[0] in ("<", "<="):
                            pass
                if out or missing:
                    rep.ok("%s: nodata for positions outside or next to missing cells" % name, where)
            elif is_const(b.value):
                rep.bad("outside", "%s outside" % name, "positions outside the grid get %s" % str(b.value)[:30], where)
        outs = [b for b in bs if is_na(b.value)]
        if bs and not outs:
            rep.bad("outside", "%s outside" % name, "no position gets the nodata value", f.pos)
        # the valid interior reaches the blend: bounds are not stricter than the array
        for b in bs:
            if not b.reads or is_na(b.value):
                continue
            rows = [r for _, r, _ in b.reads]
            cols = [c for _, _, c in b.reads]
            for cnd, t in b.conds:
                if cnd.op != "cmp" or cnd.args[0] not in ("<", "<="):
                    continue
                lo, hi = b.corner.facts([(cnd, t)])
                for u, ln in hi:
                    own = rows if ln == "m" else cols
                    ds = [(u - nf).const() for nf in own]
                    ds = [d for d in ds if d is not None]
                    if ds and min(ds) < 0:
                        rep.bad("outside", "%s %s bound" % (name, ln), "a bound test uses a cell that is not the last "
                                "one read", b.e.where)
                    elif ds and min(ds) > 0:
                        rep.bad("outside", "%s %s bound" % (name, ln), "positions whose four cells lie inside the grid "
                                "are treated as outside", b.e.where)
                for l in lo:
                    ds = [(nf - l).const() for nf in rows + cols]
                    ds = [d for d in ds if d is not None]
                    if ds and min(ds) > 0:
                        rep.bad("outside", "%s lower bound" % name, "positions whose four cells lie inside the grid "
                                "are treated as outside", b.e.where)


# ------------------------------------------------------------------ Python side

def pos_of(t, names=("_indices", "indices", "positions")):
    """axis (0 row, 1 column) of a position component self._indices(...)[k]"""
    if t.op == "item" and is_const(t.args[1]) and t.args[0].op == "mcall" and t.args[0].args[1] in names and \
            cval(t.args[1]) in (0, 1):
        return cval(t.args[1])
    return None


def base_pos(t):
    """axis of an index vector, through masking and copying"""
    while True:
        k = pos_of(t)
        if k is not None:
            return k
        if t.op == "item":
            t = t.args[0]
        elif t.op == "mcall" and t.args[1] in ("astype", "copy", "ravel"):
            t = t.args[0]
        elif ext(t) in ("int", "numpy.array", "numpy.asarray") and t.args[1]:
            t = t.args[1][0][1]
        else:
            return None


def size_of(t):
    """axis of self.size[k]"""
    if t.op == "item" and is_const(t.args[1]) and t.args[0].op == "attr" and t.args[0].args[1] in ("size", "shape"):
        return cval(t.args[1]) % 2 if isinstance(cval(t.args[1]), int) else None
    return None


def tests(conds):
    """{(axis, 'lo'|'hi')} proven for index terms; wrong-axis or off-by-one tests are reported as ('bad', text)"""
    ok, bad = set(), []
    for c, b in conds:
        if c.op != "cmp" or c.args[0] not in ("<", "<="):
            continue
        o, x, y = c.args
        if not b:
            o, x, y = ("<=" if o == "<" else "<"), y, x
        # holds: x o y
        kx, ky = base_pos(x), base_pos(y)
        if ky is not None and is_const(x):
            v = cval(x)
            if (o == "<=" and v == 0) or (o == "<" and v == -1):
                ok.add((ky, "lo"))
            elif v > 0 or (o == "<" and v == 0):
                bad.append("row column".split()[ky] + " 0 is treated as outside")
            else:
                bad.append("negative %s indices are accepted" % "row column".split()[ky])
        elif kx is not None:
            off = 0
            yy = y
            if y.op == "bin" and y.args[0] in ("-", "+") and is_const(y.args[2]):
                yy = y.args[1]
                off = cval(y.args[2]) * (1 if y.args[0] == "+" else -1)
            s = size_of(yy)
            if s is None:
                continue
            off += 0 if o == "<" else 1
            if s != kx:
                bad.append("the %s index is tested against the size along the other axis" % "row column".split()[kx])
            elif off == 0:
                ok.add((kx, "hi"))
            elif off > 0:
                bad.append("%s indices beyond the last are accepted" % "row column".split()[kx])
            else:
                bad.append("the last %s is treated as outside" % "row column".split()[kx])
    return ok, bad


def literals(m, pol=True):
    """(conjunction?, [(cmp term, polarity)]) of a boolean mask expression, or None"""
    if m.op == "not" or (m.op == "un" and m.args[0] in ("~", "not")):
        return literals(m.args[-1], not pol)
    if ext(m) in ("numpy.logical_not", "numpy.invert"):
        return literals(m.args[1][0][1], not pol)
    if m.op == "cmp":
        k = [x for x in m.args[1:] if isinstance(x, T) and is_const(x) and isinstance(cval(x), bool)]
        if k and m.args[0] == "==":
            o = [x for x in m.args[1:] if x is not k[0]][0]
            return literals(o, pol if cval(k[0]) else not pol)
        return None, [(m, pol)]
    op = None
    if m.op == "bin" and m.args[0] in ("&", "|"):
        op, parts = m.args[0], m.args[1:]
    elif ext(m) in ("numpy.logical_and", "numpy.logical_or"):
        op, parts = ("&" if ext(m).endswith("and") else "|"), [v for _, v in m.args[1]]
    if op is None:
        return None
    conj = (op == "&") == pol
    lits = []
    for x in parts:
        r = literals(x, pol)
        if r is None or (r[0] is not None and r[0] != conj):
            return None
        lits += r[1]
    return conj, lits


def need(rep, qn, ok, bad, what, where):
    for b in bad:
        rep.bad("bounds", "%s: %s" % (qn, b), "%s %s" % (what, b), where)
    miss = [x for x in ((0, "lo"), (0, "hi"), (1, "lo"), (1, "hi")) if x not in ok]
    if miss and not bad:
        rep.bad("bounds", "%s %s" % (qn, miss), "%s without testing the %s of the %s index" % (
            what, "lower bound" if miss[0][1] == "lo" else "upper bound", ("row", "column")[miss[0][0]]), where)
    elif not bad:
        rep.ok("%s: %s under row and column bounds" % (qn, what), where)


def self_cells(t):
    return t.op == "item" and ((t.args[0].op == "param" and t.args[0].args[0] == "self") or
                               (t.args[0].op == "attr" and t.args[0].args[1] in ("values", "_bandindexer")))


class Edge(object):
    """integer value F + k (F the floor of the extreme of an index vector), clipped to the grid"""
    def __init__(self, axis, which, lo, hi):
        self.axis, self.which, self.lo, self.hi = axis, which, lo, hi


def edge(t, d=0):
    """the window edge a term denotes: Edge with F + [lo, hi], or None"""
    if d > 12:
        return None
    e = ext(t)
    if e in ("int", "numpy.int64", "round", "numpy.floor", "math.floor", "numpy.ceil", "math.ceil", "float") and \
            len(t.args[1]) == 1:
        x = edge(t.args[1][0][1], d + 1)
        if x is None:
            return None
        if e.endswith("ceil") and x.which[1] == "frac":
            return Edge(x.axis, (x.which[0], "int"), x.lo, x.hi + 1)
        return Edge(x.axis, (x.which[0], "int"), x.lo, x.hi)
    if e in ("max", "min", "numpy.maximum", "numpy.minimum") and len(t.args[1]) == 2:
        a, b = [v for _, v in t.args[1]]
        xa, xb = edge(a, d + 1), edge(b, d + 1)
        x, o = (xa, b) if xa is not None else (xb, a)
        if x is None:
            return None
        if e.endswith(("max", "maximum")) and is_const(o) and cval(o) == 0:
            return x
        if e.endswith(("min", "minimum")):
            s = size_of(o)
            if s is not None:
                return x if s == x.axis else Edge(x.axis, ("wrong", "int"), x.lo, x.hi)
        return None
    if t.op == "mcall" and t.args[1] in ("min", "max") and not t.args[2]:
        k = base_pos(t.args[0])
        if k is None:
            return None
        return Edge(k, (t.args[1], "frac"), 0, 0)
    if e in ("numpy.min", "numpy.max", "min", "max") and len(t.args[1]) == 1:
        k = base_pos(t.args[1][0][1])
        if k is not None:
            return Edge(k, (e.split(".")[-1], "frac"), 0, 0)
    if t.op == "bin" and t.args[0] in ("+", "-"):
        a, b = t.args[1], t.args[2]
        if t.args[0] == "+" and is_const(a):
            a, b = b, a
        x = edge(a, d + 1)
        if x is None or not is_const(b) or not isinstance(cval(b), (int, float)):
            return None
        k = cval(b) * (1 if t.args[0] == "+" else -1)
        return Edge(x.axis, x.which, x.lo + k, x.hi + k)
    return None


def strip_astype(t):
    to = None
    while t.op == "mcall" and t.args[1] in ("astype", "squeeze", "copy", "reshape", "ravel"):
        if t.args[1] == "astype" and to is None and t.args[2]:
            to = t.args[2][0][1]
        t = t.args[0]
    return t, to


def check_window(rep, qn, key, I, J, need_hi, where):
    """cells read through window key = (slice, slice, ...), indexed by I and J"""
    for ax, (sl, v) in enumerate(((key.args[0], I), (key.args[1], J))):
        axn = ("row", "column")[ax]
        if sl.op != "slice":
            return
        lo, hi, st = sl.args
        off = NONE
        b = v
        if v.op == "bin" and v.args[0] == "-":
            b, off = v.args[1], v.args[2]
        k = base_pos(b)
        if k is None:
            rep.undec("%s: index vector of the %s not recognised" % (qn, axn))
            continue
        if k != ax:
            rep.bad("window", "%s %s index" % (qn, axn), "the %s index is used along the other axis" % axn, where)
            continue
        lo_zero = lo is NONE or (is_const(lo) and cval(lo) == 0)
        off_zero = off is NONE or (is_const(off) and cval(off) == 0)
        if not (lo is off or (lo_zero and off_zero)):
            rep.bad("window", "%s %s shift" % (qn, axn), "indices are shifted by %s but the window starts at %s"
                    % (str(off)[:60], str(lo)[:60]), where)
            continue
        rep.ok("%s: %s indices are shifted by the window's origin" % (qn, axn), where)
        if lo_zero and hi is NONE:
            continue
        e, h = edge(lo), edge(hi) if hi is not NONE else None
        if lo_zero:
            e = None
        if e is not None:
            if e.axis != ax or e.which[0] != "min" or e.hi > 0:
                rep.bad("window", "%s %s start" % (qn, axn), "the window does not start at or before the first "
                        "%s needed" % axn, where)
            else:
                rep.ok("%s: the window starts before the first %s needed" % (qn, axn), where)
        elif not lo_zero:
            rep.undec("%s: window start of the %ss not recognised" % (qn, axn))
        if hi is NONE:
            continue
        if h is None:
            rep.undec("%s: window end of the %ss not recognised" % (qn, axn))
        elif h.axis != ax or h.which[0] != "max" or h.lo < need_hi:
            rep.bad("window", "%s %s end" % (qn, axn), "the window ends before the last %s needed" % axn, where)
        else:
            rep.ok("%s: the window ends after the last %s needed" % (qn, axn), where)


def check_nearest(p, rep):
    c = p.modules["karta.raster.grid"].classes["RegularGrid"]
    f = c.lookup("sample_nearest")
    if f is None:
        return
    rep.fn(f.qual)
    qn = "sample_nearest"
    for v, conds, where, path, i in returned(p, c, f, policy=P11(), rep=rep):
        seen = set()
        # masks that select the positions outside
        for x in walk(v, seen):
            if x.op == "set":
                key, val = x.args
                k0 = key.args[0] if key.op == "tuple" and key.args else key
                l = literals(k0)
                if nodata_of2(val):
                    if l is None:
                        rep.undec("sample_nearest: mask of positions outside not recognised")
                        continue
                    conj, lits = l
                    if conj is True:
                        rep.bad("bounds", "sample_nearest outside mask", "only positions that fail every test at once "
                                "are treated as outside", where)
                        continue
                    ok, bad = tests([(a, not b) for a, b in lits])
                    need(rep, qn, ok, bad, "cells are read", where)
                elif any(self_cells(y) for y in walk(val)):
                    if l is not None:
                        conj, lits = l
                        ok, bad = tests(lits)
                        if conj is False:
                            rep.bad("bounds", "sample_nearest inside mask", "positions that pass any one test are "
                                    "treated as inside", where)
                        else:
                            need(rep, qn, ok, bad, "sampled cells are stored", where)
                    own = [y for y in walk(val) if y.op == "item" and y.args[1].op == "tuple" and
                           self_cells(y.args[0])]
                    for y in own:
                        if len(y.args[1].args) >= 2:
                            check_window(rep, qn, y.args[0].args[1], y.args[1].args[0], y.args[1].args[1], 1, where)
                elif is_const(val):
                    rep.bad("outside", "sample_nearest outside", "positions outside get %s" % str(val)[:30], where)
        # scalar result
        cells = [x for x in walk(v, set()) if self_cells(x) and x.args[1].op == "tuple" and
                 len(x.args[1].args) >= 2 and all(pos_of(y) is not None for y in x.args[1].args[:2])]
        for x in cells:
            if [pos_of(y) for y in x.args[1].args[:2]] != [0, 1]:
                rep.bad("window", "sample_nearest scalar index", "row and column are exchanged", where)
                continue
            ok, bad = tests(conds)
            need(rep, qn, ok, bad, "a cell is read", where)
        if not cells and ext(v) == "numpy.full":
            fill = [a for k, a in v.args[1]][1] if len(v.args[1]) > 1 else None
            ok, bad = tests(conds)
            if fill is not None and nodata_of2(fill):
                rep.ok("sample_nearest: nodata outside", where)
            else:
                rep.bad("outside", "sample_nearest outside", "positions outside get %s" % str(fill)[:30], where)
        check_layout(rep, qn, v, where)


def check_layout(rep, qn, v, where):
    """results are bands x positions: an array allocated as (positions, bands) is transposed before it is reshaped"""
    if v.op == "mcall" and v.args[1] == "reshape":
        recv = v.args[0]
        tr = False
        if recv.op == "attr" and recv.args[1] == "T":
            tr, recv = True, recv.args[0]
        elif recv.op == "mcall" and recv.args[1] == "transpose" and not recv.args[2]:
            tr, recv = True, recv.args[0]
        alloc = recv.args[0] if recv.op == "arr" else recv
        if ext(alloc) in ("numpy.empty", "numpy.full", "numpy.zeros"):
            shape = alloc.args[1][0][1]
            if shape.op in ("tuple", "list") and len(shape.args) == 2:
                isb = [x.op == "len" and x.args[0].op == "attr" and x.args[0].args[1] == "bands" or
                       (x.op == "attr" and x.args[1] == "nbands") for x in shape.args]
                if isb == [False, True] or isb == [True, False]:
                    if tr == isb[1]:
                        rep.ok("%s: result is bands by positions" % qn, where)
                    else:
                        rep.bad("layout", "%s result layout" % qn, "bands and positions are mixed up in the result",
                                where)


def check_bilinear(p, rep):
    c = p.modules["karta.raster.grid"].classes["RegularGrid"]
    f = c.lookup("sample_bilinear")
    if f is None:
        return
    rep.fn(f.qual)
    qn = "sample_bilinear"
    for v, conds, where, path, i in returned(p, c, f, policy=P11(), rep=rep):
        seen = set()
        for x in walk(v, seen):
            if x.op != "each":
                continue
            it, depth, econds, body = x.args
            calls = [y for y in walk(body) if y.op == "call" and y.args[0].op == "func" and
                     y.args[0].args[0].split(".")[-1] in KERNELS]
            for y in calls:
                kern = y.args[0].args[0].split(".")[-1]
                a = [arg(y, n, k) for k, n in enumerate(("I", "J", "Z", "na"))]
                if any(q is None for q in a):
                    continue
                I, J, Z, na = a
                if nodata_of2(na):
                    rep.ok("%s passes the nodata value" % qn, where)
                else:
                    rep.bad("outside", "%s nodata" % qn, "positions outside get %s" % str(na)[:30], where)
                cells, to = strip_astype(Z)
                if self_cells(cells) and cells.args[1].op == "tuple" and len(cells.args[1].args) == 3:
                    check_window(rep, qn, cells.args[1], I, J, 2, where)
                    bk = cells.args[1].args[2]
                    if bk.op == "idx" or (bk.op == "elem" and ext(bk.args[0]) == "range"):
                        rep.ok("%s: each band is sampled from its own cells" % qn, where)
                    elif is_const(bk):
                        rep.bad("band", "%s band" % qn, "every band is sampled from band %s" % cval(bk), where)
                # element types
                types = []
                for cnd, b in [q for q in econds if isinstance(q, tuple)]:
                    if b and cnd.op == "cmp" and cnd.args[0] == "==":
                        for s, d in ((cnd.args[1], cnd.args[2]), (cnd.args[2], cnd.args[1])):
                            if s.op == "attr" and s.args[1] == "dtype" and dtype_name(d):
                                types.append(dtype_name(d))
                kt = {"sample_bilinear_uint": "uint16", "sample_bilinear_int": "int32",
                      "sample_bilinear_double": "float64"}[kern]
                for t in types:
                    h = holds(kt, t)
                    if h is False:
                        rep.bad("type", "%s %s in %s" % (qn, t, kern), "cells of type %s are sampled as %s, which "
                                "does not hold them" % (t, kt), where)
                    elif h:
                        rep.ok("%s: %s holds cells of type %s" % (qn, kern, t), where)
                    if to is not None and dtype_name(to) and holds(dtype_name(to), t) is False:
                        rep.bad("type", "%s %s cast" % (qn, t), "cells of type %s are cast to %s"
                                % (t, dtype_name(to)), where)


class Calls(P11):
    max_depth = 0


def check_sample(p, rep):
    c = p.modules["karta.raster.grid"].classes["RegularGrid"]
    f = c.lookup("sample")
    if f is None:
        return
    rep.fn(f.qual)
    for v, conds, where, path, i in returned(p, c, f, policy=P11(), rep=rep):
        for x in walk(v, set()):
            if x.op == "mcall" and x.args[1] in ("sample_nearest", "sample_bilinear"):
                m = next((cval(y) for cnd, b in conds if b and cnd.op == "cmp" and cnd.args[0] == "=="
                          for y in cnd.args[1:] if is_const(y) and cval(y) in ("nearest", "bilinear")), None)
                if m is None:
                    rep.undec("sample: method not determined on a path")
                elif x.args[1] == "sample_" + m:
                    rep.ok("sample(method=%r) uses %s" % (m, x.args[1]), where)
                else:
                    rep.bad("method", "sample method %s" % m, "method %r uses %s" % (m, x.args[1]), where)
                a = [arg(x, 0, "x"), arg(x, 1, "y")]
                comps = [y.args[1] if y is not None and y.op == "item" and is_const(y.args[1]) else None for y in a]
                if all(k is not None for k in comps) and a[0].args[0] is a[1].args[0]:
                    if [cval(k) for k in comps] == [0, 1]:
                        rep.ok("sample: x and y in order", where)
                    elif [cval(k) for k in comps] == [1, 0]:
                        rep.bad("order", "sample x, y", "x and y are exchanged", where)


def run(p, rep):
    for g in (check_kernels, check_nearest, check_bilinear, check_sample):
        try:
            g(p, rep)
        except Exception as ex:
            rep.undec("%s: %s %s" % (g.__name__, type(ex).__name__, ex))


def check():
    p = Program()
    rep = Report("C19", RULE)
    rep.minimum = 8
    run(p, rep)
    rep.assumptions.append("position to index conversion is decided by C08")
    return rep
