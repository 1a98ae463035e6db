"""C24: cells holding the nodata value never enter results as values."""
from ..loader import Program
from ..report import Report
from ..results import returned
from ..terms import T, mk, is_const, cval, walk, arg, children, NONE
from ..rasterspec import qname
from ..interp import Interp
from ..bilinear import KERNELS, stores, na_tested, is_na, lows
from ..poly import rconst, ratom
from .c08 import functions
from .c11 import P11, nan, nodata_of, MODS

TECHNIQUE = "guarded-use dataflow analysis: every arithmetic use of raw cells must be dominated by a validity mask"
RULE = ("A raw cell read of a grid may be compared, copied and moved freely, but a value computed from it (arithmetic, "
        "reduction, user function) must be selected by a mask that is true only for cells of that grid (and band) that "
        "differ from its nodata value - NaN included; the cells left out get the nodata value of the result, or NaN "
        "where further arithmetic follows. The masks themselves, the in-place updates and the samplers are checked "
        "against the same rule.")

REDUCE = {"max", "min", "sum", "mean", "std", "var", "median", "percentile", "ptp", "argmax", "argmin", "average",
          "amax", "amin", "prod", "cumsum"}
MOVES = {"astype", "reshape", "copy", "ravel", "flatten", "transpose", "squeeze", "view", "T", "tolist", "byteswap",
         "swapaxes", "repeat", "take"}
XMOVES = {"numpy.array", "numpy.asarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.atleast_3d", "numpy.dstack",
          "numpy.concatenate", "numpy.broadcast_to", "numpy.pad", "numpy.copy", "list", "tuple", "copy.copy",
          "copy.deepcopy", "numpy.ascontiguousarray", "numpy.squeeze", "numpy.reshape", "numpy.flipud", "numpy.fliplr",
          "numpy.ravel", "enumerate", "zip", "reversed", "iter", "numpy.stack", "numpy.hstack", "numpy.vstack",
          "numpy.transpose", "len", "isinstance", "hasattr", "type", "getattr", "range"}
TESTS = {"numpy.isnan", "numpy.isfinite", "numpy.equal", "numpy.not_equal", "numpy.isclose", "math.isnan"}


def grid_of(t):
    """the grid a term denotes, or None"""
    if t.op == "param" and t.args[0] in ("self", "grid", "other"):
        return t
    if t.op in ("elem", "item") and any(x.op == "param" and x.args[0] == "grids" for x in walk(t)) and \
            t.args[0].op in ("param", "item", "call") and not any(x.op in ("attr", "mcall") for x in walk(t)):
        return t
    return None


def raw(t):
    """(grid, band or None) of a raw cell read"""
    if t.op == "item":
        b = t.args[0]
        if b.op == "attr" and b.args[1] in ("values", "_bandindexer"):
            b = b.args[0]
        if b.op == "param" and b.args[0] == "grids":
            return None
        g = grid_of(b)
        if g is not None and is_gridname(b):
            return g, band_key(t.args[1])
    if t.op == "mcall" and t.args[1] == "getblock":
        r = t.args[0]
        if r.op in ("item", "elem") and r.args[0].op == "attr" and r.args[0].args[1] == "bands":
            g = grid_of(r.args[0].args[0])
            if g is not None:
                return g, (r.args[1] if r.op == "item" else r)
    if t.op == "elem":
        it = t.args[0]
        if raw(it):
            return raw(it)
    return None


def is_gridname(b):
    return b.op == "param" or b.op in ("elem", "item")


def band_key(k):
    if k.op == "tuple" and len(k.args) == 3:
        b = k.args[2]
        if b.op == "slice":
            return None
        return b
    return None


def ext(t, names=None):
    if t.op == "call" and t.args[0].op in ("ext", "builtin"):
        n = t.args[0].args[0]
        if names is None or n in names:
            return n
    return None


class Guards(object):
    """facts about masks: grids of which the selected cells are valid / invalid, values known not to be NaN"""

    def __init__(self, conds):
        self.conds = conds

    def nodata_nan(self, g):
        """is the path's assumption that g's nodata is NaN: True / False / None"""
        for c, b in self.conds:
            if ext(c, TESTS) and any(nodata_of2(a, g) or a.op == "param" and a.args[0] == "nodata"
                                     for _, a in c.args[1]):
                n = ext(c)
                if n.endswith("isnan"):
                    return b
                if n.endswith("isfinite"):
                    return None
        return None

    def mask(self, m, pol=True, depth=0):
        """set of facts that hold where mask m == pol: ('valid', grid, band) ('notnan', term)"""
        if depth > 12:
            return frozenset()
        if m.op == "attr" and m.args[1] in ("data_mask", "data_mask_full"):
            g = grid_of(m.args[0])
            if g is not None:
                return frozenset([("valid" if pol else "invalid", g, None)])
            return frozenset()
        if m.op == "item":
            f = self.mask(m.args[0], pol, depth + 1)
            k = band_key(m.args[1])
            if k is not None:
                return frozenset((a, g, k if b is None else b) for a, g, b in f)
            return f
        if m.op == "not" or (m.op == "un" and m.args[0] in ("~", "not")):
            return self.mask(m.args[-1], not pol, depth + 1)
        if m.op == "cmp":
            a, b = m.args[1], m.args[2]
            for x, y in ((a, b), (b, a)):
                if is_const(y) and isinstance(cval(y), bool) and m.args[0] in ("==", "is"):
                    return self.mask(x, pol if cval(y) else not pol, depth + 1)
            if m.args[0] == "==":
                for x, y in ((a, b), (b, a)):
                    r = self.carrier(x)
                    if r and (nodata_of2(y, r[0]) or (y.op == "param" and y.args[0] == "nodata")):
                        nn = self.nodata_nan(r[0])
                        if pol:
                            return frozenset([("invalid", r[0], r[1])])
                        if nn is True:
                            return frozenset([("nanhole", r[0], r[1])])
                        if nn is None:
                            return frozenset([("maybe", r[0], r[1])])
                        return frozenset([("valid", r[0], r[1])])
                    if r and x is y and not pol:
                        return frozenset([("invalid", r[0], r[1])])
                    if r and x is y and pol and self.nodata_nan(r[0]) is True:
                        return frozenset([("valid", r[0], r[1])])
            return frozenset()
        if m.op == "phi" or m.op == "ite":
            return frozenset()
        if m.op in ("and", "or") or (m.op == "bin" and m.args[0] in ("&", "|", "*")):
            parts = [x for x in (m.args if m.op in ("and", "or") else m.args[1:]) if isinstance(x, T)]
            if m.op in ("and", "or") and len(parts) == 1 and parts[0].op == "tuple":
                parts = list(parts[0].args)
            conj = (m.op == "and" or (m.op == "bin" and m.args[0] in ("&", "*"))) == pol
            fs = [self.mask(x, pol, depth + 1) for x in parts]
            if not fs:
                return frozenset()
            out = fs[0]
            for f in fs[1:]:
                out = (out | f) if conj else (out & f)
            return out
        n = ext(m)
        if n in ("numpy.logical_and", "numpy.logical_or", "numpy.logical_not", "numpy.bitwise_and"):
            a = [v for _, v in m.args[1]]
            if n == "numpy.logical_not":
                return self.mask(a[0], not pol, depth + 1)
            return self.mask(mk("bin", "|" if n.endswith("or") else "&", a[0], a[1]), pol, depth + 1)
        if n in TESTS and n.endswith("isnan"):
            a = m.args[1][0][1]
            out = set()
            r = self.carrier(a)
            if r and self.nodata_nan(r[0]) is True:
                out.add(("valid" if not pol else "invalid", r[0], r[1]))
            elif r and not pol and self.nodata_nan(r[0]) is False:
                out.add(("numhole", r[0], r[1]))
            elif r and not pol:
                out.add(("maybe", r[0], r[1]))
            if not pol:
                out.add(("notnan", a, None))
            return frozenset(out)
        if n == "numpy.isfinite" and pol:
            a = m.args[1][0][1]
            r = self.carrier(a)
            out = {("notnan", a, None)}
            if r and self.nodata_nan(r[0]) is True:
                out.add(("valid", r[0], r[1]))
            return frozenset(out)
        if n in ("numpy.all", "numpy.any", "all", "any") or (m.op == "mcall" and m.args[1] in ("all", "any")):
            which = n.split(".")[-1] if n else m.args[1]
            a = m.args[1][0][1] if n else m.args[0]
            if (which == "all") == pol:
                return self.mask(a, pol, depth + 1)
            # some band valid: nothing is known about an individual one
            return frozenset(("weak", g, b) if k in ("valid", "invalid") else (k, g, b)
                             for k, g, b in self.mask(a, pol, depth + 1) if k in ("valid", "invalid", "weak"))
        if n in XMOVES and m.args[1]:
            return self.mask(m.args[1][0][1], pol, depth + 1)
        if m.op == "mcall" and m.args[1] in MOVES:
            return self.mask(m.args[0], pol, depth + 1)
        if m.op in ("list", "tuple", "gen"):
            fs = [self.mask(x, pol, depth + 1) for x in m.args if isinstance(x, T)]
            out = None
            for f in fs:
                out = f if out is None else out & f
            return out or frozenset()
        if m.op == "each":
            f = self.mask(m.args[-1], pol, depth + 1)
            return frozenset((k, g, None if b is not None and b.op in ("elem", "idx") else b) for k, g, b in f)
        return frozenset()

    def carrier(self, t, depth=0):
        """the raw read whose cells t holds one for one"""
        r = raw(t)
        if r:
            return r
        if depth > 8:
            return None
        if t.op == "mcall" and t.args[1] in MOVES:
            return self.carrier(t.args[0], depth + 1)
        if ext(t, XMOVES) and t.args[1]:
            return self.carrier(t.args[1][0][1], depth + 1)
        if t.op == "item":
            return self.carrier(t.args[0], depth + 1)
        return None


def nodata_of2(t, g=None):
    if t.op == "attr" and t.args[1] in ("nodata", "_nodata", "nodata_value"):
        return g is None or t.args[0] is g or g.op != "param"
    return False


def sameband(a, b):
    return a is None or b is None or a is b


class Flow(object):
    """walks a computed value; collects arithmetic uses of raw cells with the facts known where they are selected"""

    def __init__(self, rep, qn, conds, where):
        self.rep, self.qn, self.where = rep, qn, where
        self.G = Guards(conds)
        self.n = 0
        self.seen = set()

    def use(self, r, facts, how):
        g, band = r
        self.n += 1
        kinds = set()
        for k, fg, fb in facts:
            if k == "notnan" or fg is not g:
                continue
            if not sameband(fb, band):
                k = "otherband"
            kinds.add(k)
        nn = self.G.nodata_nan(g)
        name = gname(g)
        if "valid" in kinds or nn is True:
            self.rep.ok("%s: %s of %s restricted to valid cells" % (self.qn, how, name), self.where)
        elif "maybe" in kinds:
            self.rep.undec("%s: mask of %s does not tell whether nodata is NaN" % (self.qn, name))
        else:
            why = {"invalid": "selected by the mask of missing cells", "nanhole": "compared with a NaN nodata value",
                   "numhole": "tested for NaN only", "otherband": "selected by the mask of another band",
                   "weak": "selected where any band is valid"}
            msg = next((why[k] for k in why if k in kinds), "not restricted to valid cells")
            self.rep.bad("unmasked", "%s %s %s" % (self.qn, how, name),
                         "cells of %s enter %s %s" % (name, how, msg), self.where)

    def visit(self, t, facts, arith, depth=0):
        """arith: None (moved only) or the name of the operation that consumes the value"""
        if not isinstance(t, T) or depth > 60:
            return
        key = (t, facts, arith)
        if key in self.seen:
            return
        self.seen.add(key)
        r = raw(t)
        if r:
            if t.op == "item" and t.args[1].op != "slice":
                facts = facts | self.G.mask(t.args[1]) if t.args[1].op != "tuple" else facts
                if t.args[1].op == "tuple":
                    for k in t.args[1].args:
                        facts = facts | self.G.mask(k)
            if arith:
                self.use(r, facts, arith)
            return
        n = ext(t)
        if n == "numpy.where" and len(t.args[1]) == 3:
            m, a, b = [v for _, v in t.args[1]]
            fp, fn = self.G.mask(m, True), self.G.mask(m, False)
            self.visit(a, facts | fp, arith, depth + 1)
            self.visit(b, facts | fn, arith, depth + 1)
            if arith:
                for fill, fs, other in ((b, fp, a), (a, fn, b)):
                    if any(k == "valid" for k, _, _ in fs) and \
                            any(raw(x) for x in walk(other)):
                        if nan(fill):
                            self.rep.ok("%s: missing cells are NaN in %s" % (self.qn, arith), self.where)
                        elif nodata_of2(fill) or is_const(fill):
                            self.rep.bad("fill", "%s %s" % (self.qn, arith),
                                         "missing cells enter %s as the number %s" % (arith, str(fill)[:40]),
                                         self.where)
            return
        if n in TESTS or n in ("len",):
            return
        if t.op in ("cmp", "isnone", "isinstance", "hasattr", "len", "attr", "global", "param"):
            return
        if t.op == "item":
            k = t.args[1]
            fs = facts
            for kk in (k.args if k.op == "tuple" else (k,)):
                if isinstance(kk, T):
                    fs = fs | self.G.mask(kk)
            self.visit(t.args[0], fs, arith, depth + 1)
            return
        if t.op == "bin":
            op = "arithmetic"
            if t.args[0] in ("&", "|", "^"):
                return
            for x in t.args[1:]:
                self.visit(x, facts, arith or op, depth + 1)
            return
        if t.op == "un":
            if t.args[0] == "~":
                return
            self.visit(t.args[-1], facts, arith or "arithmetic", depth + 1)
            return
        if t.op == "mcall":
            nm = t.args[1]
            if nm in MOVES:
                self.visit(t.args[0], facts, arith, depth + 1)
            elif nm in ("setblock", "getblock"):
                return
            else:
                if nm in REDUCE and not any(k == "axis" for k, _ in t.args[2]):
                    self.nanreduce(t.args[0], facts, nm)
                self.visit(t.args[0], facts, arith or nm, depth + 1)
                for _, a in t.args[2]:
                    self.visit(a, facts, arith or nm, depth + 1)
            return
        if t.op == "call":
            f = t.args[0]
            short = n.split(".")[-1] if n else "call"
            if n in XMOVES:
                for _, a in t.args[1]:
                    self.visit(a, facts, arith, depth + 1)
                return
            if f.op == "func":
                for _, a in t.args[1]:
                    self.visit(a, facts, arith, depth + 1)
                return
            if n and short in REDUCE and t.args[1] and not any(k == "axis" for k, _ in t.args[1]):
                self.nanreduce(t.args[1][0][1], facts, short)
            if f.op == "attr" and f.args[1] == "dtype":
                short = arith
            for _, a in t.args[1]:
                self.visit(a, facts, arith or short, depth + 1)
            return
        if t.op == "fold":
            # arithmetic inside a loop is reported by its aug / setattr events
            for c, v in t.args[-1]:
                pass
            return
        for a in children(t):
            self.visit(a, facts, arith, depth + 1)

    def nanreduce(self, a, facts, how):
        """extremes and totals of a field whose missing cells are NaN must leave the NaN out"""
        base = a
        fs = facts
        if a.op == "item":
            base = a.args[0]
            fs = fs | self.G.mask(a.args[1])
        if not nanfield(base):
            return
        if any(k == "notnan" and (g is base) for k, g, _ in fs) or any(k == "valid" for k, _, _ in fs):
            self.rep.ok("%s: %s leaves out NaN" % (self.qn, how), self.where)
        elif any(k == "notnan" for k, _, _ in fs):
            self.rep.undec("%s: %s restricted by the NaN test of another array" % (self.qn, how))
        else:
            self.rep.bad("nan-reduction", "%s %s" % (self.qn, how),
                         "%s over an array whose missing cells are NaN gives NaN" % how, self.where)


def nanfield(t, depth=0):
    """does t hold NaN where cells are missing"""
    if depth > 25:
        return False
    n = ext(t)
    if n == "numpy.where" and len(t.args[1]) == 3:
        return any(nan(v) for _, v in t.args[1][1:])
    if n == "numpy.pad":
        return any(nan(x) for k, v in t.args[1] if k == "constant_values" for x in walk(v)) or \
            nanfield(t.args[1][0][1], depth + 1)
    if t.op == "bin" and t.args[0] in ("+", "-", "*", "/", "**"):
        return nanfield(t.args[1], depth + 1) or nanfield(t.args[2], depth + 1)
    if t.op == "un":
        return nanfield(t.args[-1], depth + 1)
    if t.op == "item":
        if t.args[0].op == "new" and arg(t.args[0], "values") is not None:
            return nan(arg(t.args[0], "nodata_value")) and nanfield(arg(t.args[0], "values"), depth + 1)
        if t.args[1].op in ("tuple", "slice"):
            return nanfield(t.args[0], depth + 1)
        return False
    if t.op == "mcall" and (t.args[1] in MOVES or (t.args[1] in ("sum",) and
                                                   any(k == "axis" for k, _ in t.args[2]))):
        return nanfield(t.args[0], depth + 1)
    if n in ("numpy.sqrt", "numpy.arctan2", "numpy.cross", "numpy.array", "numpy.sin", "numpy.cos", "numpy.abs",
             "numpy.absolute", "numpy.hypot", "numpy.atleast_3d", "numpy.sum", "numpy.asarray", "numpy.arctan"):
        return any(nanfield(v, depth + 1) for _, v in t.args[1])
    if t.op in ("list", "tuple"):
        return any(nanfield(v, depth + 1) for v in t.args if isinstance(v, T))
    return False


def gname(g):
    s = str(g)
    return s if len(s) < 40 else s[:37] + "..."


SKIP = ("__init__", "__getitem__", "__setitem__", "newgrid", "values", "data_mask", "data_mask_full", "data_extent",
        "aschunks", "copy")


def check_flow(p, rep, mod, c, f):
    qn = qname(c, f)
    n = 0
    for v, conds, where, path, i in returned(p, c, f, policy=P11(), rep=rep):
        fl = Flow(rep, qn, conds, where)
        fl.visit(v, frozenset(), None)
        for e in path.events:
            if e.kind == "call" and ext(e.term) and ext(e.term).split(".")[-1] in REDUCE and e.term.args[1] and \
                    not any(k == "axis" for k, _ in e.term.args[1]):
                fl.where = e.where
                fl.nanreduce(i.reify(e.term.args[1][0][1], path.state), frozenset(), ext(e.term).split(".")[-1])
            if e.kind == "store":
                key, val, base = e.extra
                fl.where = e.where
                facts = frozenset()
                for kk in (key.args if key.op == "tuple" else (key,)):
                    if isinstance(kk, T):
                        facts = facts | fl.G.mask(kk)
                val = i.reify(val, path.state) if isinstance(val, T) else val
                if val.op == "bin" and any(x is base or x.op == "item" and x.args[0] is base for x in val.args[1:]):
                    for x in val.args[1:]:
                        fl.visit(x, facts, "arithmetic")
                else:
                    fl.visit(val, facts, None)
            elif e.kind == "aug":
                fl.where = e.where
                t = e.term
                facts = frozenset()
                if t.op == "item":
                    for kk in (t.args[1].args if t.args[1].op == "tuple" else (t.args[1],)):
                        if isinstance(kk, T):
                            facts = facts | fl.G.mask(kk)
                fl.visit(e.extra[1], facts, "arithmetic")
        n += fl.n
    return n


def check_masks(p, rep):
    m = p.modules["karta.raster.grid"]
    c = m.classes["RegularGrid"]
    self_ = mk("param", "self")
    f = c.lookup("data_mask_full")
    if f is not None:
        rep.fn(f.qual)
        for v, conds, where, path, i in returned(p, c, f, policy=P11(), rep=rep):
            G = Guards(conds)
            facts = G.mask(v)
            k = {x for x, g, b in facts if g is self_}
            if any(b is not None for x, g, b in facts if g is self_ and x == "valid") and "valid" in k:
                rep.bad("mask", "data_mask_full bands", "the mask of a single band stands for all bands", where)
            elif "valid" in k:
                each = [x for x in walk(v) if x.op == "each"]
                rep.ok("data_mask_full is true exactly for valid cells", where)
            elif "maybe" in k and not any(nodata_of2(y) for cc, _ in conds for y in walk(cc)):
                rep.bad("mask", "data_mask_full NaN", "the mask does not distinguish NaN from other nodata values",
                        where)
            elif k & {"invalid", "nanhole", "numhole", "weak"}:
                rep.bad("mask", "data_mask_full", "the mask of valid cells is true for cells holding nodata", where)
            else:
                rep.undec("data_mask_full: definition not recognised")
            if ext(v) and ext(v) not in ("numpy.dstack",):
                pass
    f = c.lookup("data_mask")
    if f is not None:
        rep.fn(f.qual)
        for v, conds, where, path, i in returned(p, c, f, policy=P11(), rep=rep):
            facts = Guards(conds).mask(v)
            k = {x for x, g, b in facts if g is self_}
            if "valid" in k:
                rep.ok("data_mask is true only where every band is valid", where)
            elif k:
                rep.bad("mask", "data_mask", "data_mask is true for cells in which a band holds nodata (%s)"
                        % ", ".join(sorted(k)), where)
            else:
                rep.undec("data_mask: definition not recognised")


def check_data_extent(p, rep):
    c = p.modules["karta.raster.grid"].classes["RegularGrid"]
    f = c.lookup("data_extent")
    if f is None:
        return
    rep.fn(f.qual)
    self_ = mk("param", "self")
    for v, conds, where, path, i in returned(p, c, f, policy=P11(), rep=rep):
        G = Guards(conds)
        seen = set()
        for x in walk(v, seen):
            if x.op == "mcall" and x.args[1] in ("min", "max", "argmin", "argmax") and not x.args[2]:
                a = x.args[0]
                if a.op != "item":
                    if any(y.op == "elem" and raw(y) for y in walk(a)) or any(y.op == "idx" for y in walk(a)):
                        rep.bad("extent-mask", "data_extent %s" % x.args[1],
                                "the extreme is taken over all cells of a row, not the valid ones", where)
                    continue
                facts = G.mask(a.args[1])
                k = {z for z, g, b in facts if g is self_}
                if "valid" in k:
                    rep.ok("data_extent: %s over valid cells" % x.args[1], where)
                elif k & {"invalid", "nanhole", "numhole", "weak"}:
                    rep.bad("extent-mask", "data_extent %s" % x.args[1],
                            "the extreme is taken over cells %s" %
                            ("in which only some band is valid" if "weak" in k else "that hold nodata"), where)
                elif "maybe" in k and not any(y.op == "param" and y.args[0] == "nodata" for cc, _ in conds
                                              if ext(cc) for y in walk(cc)) and \
                        not any(nodata_of2(y) for cc, _ in conds if ext(cc) for y in walk(cc)):
                    rep.bad("extent-mask", "data_extent NaN", "the test does not distinguish NaN from other nodata "
                            "values", where)
                elif k:
                    rep.undec("data_extent: mask depends on whether nodata is NaN")
                else:
                    rep.undec("data_extent: mask not recognised")
        # the test value is the requested nodata, or the grid's own
        given = next((b for cc, b in conds if cc.op == "isnone" and cc.args[0].op == "param" and
                      cc.args[0].args[0] == "nodata"), None)
        for x in walk(v, set()):
            if x.op == "cmp" and x.args[0] == "==" and any(G.carrier(z) for z in x.args[1:]):
                other = [z for z in x.args[1:] if not G.carrier(z)]
                if other and given is not None:
                    o = other[0]
                    own = nodata_of2(o)
                    par = o.op == "param" and o.args[0] == "nodata"
                    if (given and own) or (not given and par):
                        rep.ok("data_extent: compares with the %s nodata value" % ("grid's" if given else "given"),
                               where)
                    elif own or par or is_const(o):
                        rep.bad("extent-nodata", "data_extent nodata value",
                                "cells are compared with %s" % str(o)[:40], where)


def check_set_nodata(p, rep):
    c = p.modules["karta.raster.grid"].classes["RegularGrid"]
    f = c.lookup("set_nodata_value")
    if f is None:
        return
    rep.fn(f.qual)
    self_ = mk("param", "self")
    for v, conds, where, path, i in returned(p, c, f, policy=P11(), rep=rep):
        order = []
        for e in path.events:
            if e.kind == "setattr" and e.extra[0] == "_nodata":
                order.append("nodata")
                val = e.extra[1]
                if val.op == "param" and val.args[0] != "self":
                    rep.ok("set_nodata_value stores the new value", e.where)
                else:
                    rep.bad("set-nodata", "set_nodata_value stored value", "the nodata value stored is %s"
                            % str(val)[:50], e.where)
            if e.kind == "store" and (e.extra[2] is self_ or e.term is self_ or
                                      str(e.term).startswith("self")):
                order.append("cells")
                val = i.reify(e.extra[1], path.state)
                if ext(val) == "numpy.where" and len(val.args[1]) == 3:
                    m, a, b = [x for _, x in val.args[1]]
                    G = Guards(conds)
                    fp = {k for k, g, _ in G.mask(m, True) if g is self_}
                    fn = {k for k, g, _ in G.mask(m, False) if g is self_}
                    keep, fill = (a, b) if "valid" in fp else (b, a) if "valid" in fn else (None, None)
                    if keep is None:
                        rep.undec("set_nodata_value: mask not recognised")
                    elif raw(keep) and fill.op == "param":
                        rep.ok("set_nodata_value rewrites exactly the missing cells", e.where)
                    else:
                        rep.bad("set-nodata", "set_nodata_value cells",
                                "valid cells are replaced or missing cells keep the old value", e.where)
                elif any(k == "invalid" for k, g, _ in Guards(conds).mask(e.extra[0])):
                    rep.ok("set_nodata_value rewrites exactly the missing cells", e.where)
                elif any(k == "valid" for k, g, _ in Guards(conds).mask(e.extra[0])):
                    rep.bad("set-nodata", "set_nodata_value cells", "valid cells are overwritten", e.where)
        if order and order[-1] == "cells" and "nodata" in order[:-1]:
            rep.bad("set-nodata", "set_nodata_value order",
                    "the missing cells are looked up after the nodata value was changed", where)
        elif "cells" not in order and "nodata" in order:
            rep.bad("set-nodata", "set_nodata_value cells", "cells holding the old nodata value keep it and become "
                    "valid", where)
        elif order:
            rep.ok("set_nodata_value rewrites cells before it changes the value", where)


def check_apply(p, rep):
    m = p.modules["karta.raster.grid"]
    c = m.classes["RegularGrid"]
    f = c.lookup("apply")
    if f is None:
        return
    for v, conds, where, path, i in returned(p, c, f, policy=P11(), rep=rep):
        for e in path.events:
            if e.kind != "store":
                continue
            val = e.extra[1]
            reads = [x for x in walk(val) if raw(x) and x.op == "item"]
            if not reads:
                continue
            key = e.extra[0]
            if all(x.args[1] is key for x in reads):
                rep.ok("apply writes back the cells it read", e.where)
            else:
                rep.bad("apply-mask", "apply store", "the cells written differ from the cells passed to the function",
                        e.where)


def check_merge(p, rep):
    f = p.modules["karta.raster.grid"].funcs.get("merge")
    if f is None:
        return
    rep.fn(f.qual)
    for v, conds, where, path, i in returned(p, None, f, policy=P11(), rep=rep):
        for e in path.events:
            if e.kind == "aug" and e.term.op == "item":
                ks = [k for x in walk(e.term) for k in [x] if x.op == "item"]
                facts = Guards(conds).mask(e.term.args[1])
                if any(k == "valid" for k, _, _ in facts):
                    rep.ok("merge accumulates into valid cells only", e.where)
                    vals = {(g, b) for k, g, b in facts if k == "valid"}
                    for x in walk(e.extra[1]):
                        r = raw(x)
                        if r and not any(g is r[0] and sameband(b, r[1]) for g, b in vals):
                            rep.bad("merge-mask", "merge accumulation", "values of one grid or band are added at "
                                    "the valid cells of another", e.where)
                elif any(k == "invalid" for k, _, _ in facts):
                    rep.bad("merge-mask", "merge accumulation", "missing cells are accumulated", e.where)
                elif e.term.args[1].op in ("tuple", "slice") and \
                        e.extra[0] == "+" and not any(x.op == "elem" and x.args[0].op == "param"
                                                      for x in walk(e.extra[1])):
                    rep.bad("merge-mask", "merge accumulation %s" % ("values" if any(raw(x) for x in walk(e.extra[1]))
                                                                     else "weights"),
                            "every cell of the overlap is accumulated, valid or not", e.where)


def check_means(p, rep):
    """cells no value was added to get the nodata value; the others their mean"""
    m = p.modules.get("karta.raster.crfuncs")
    f = m.funcs.get("fillarray_double") if m else None
    if f is not None:
        rep.fn(f.qual)
        fill = div = False
        stores_ = []
        for pa in Interp(p, P11()).run(f, None):
            for e in pa.events:
                if e.kind != "store" or e.term.op == "call":
                    continue
                zero = None
                for c, b in e.conds:
                    if c.op == "cmp" and c.args[0] == "==" and any(is_const(x) and cval(x) == 0 for x in c.args[1:]):
                        zero = b
                    elif c.op == "cmp" and c.args[0] == "<" and is_const(c.args[1]) and cval(c.args[1]) == 0:
                        zero = not b
                val = e.extra[1]
                stores_.append((zero, val, e))
                if zero is True:
                    if val.op == "param":
                        fill = True
                        rep.ok("fillarray_double: empty cells get the nodata value", e.where)
                    else:
                        rep.bad("empty-cells", "fillarray_double empty cells", "cells without points get %s"
                                % str(val)[:40], e.where)
                        fill = True
                elif zero is False and val.op == "param":
                    rep.bad("empty-cells", "fillarray_double filled cells", "cells with points get the nodata value",
                            e.where)
        if stores_ and not fill and any(z is False for z, _, _ in stores_):
            rep.bad("empty-cells", "fillarray_double empty cells", "cells without points keep a number", f.pos)
    m = p.modules["karta.raster.grid"]
    for name in ("merge", "gridpoints"):
        f = m.funcs.get(name)
        if f is None:
            continue
        rep.fn(f.qual)
        for v, conds, where, path, i in returned(p, None, f, policy=P11(), rep=rep):
            div, fill = [], []
            for e in path.events:
                if e.kind != "store":
                    continue
                z = zero_count(e.extra[0])
                val = e.extra[1]
                if z is None:
                    continue
                if val.op == "bin" and val.args[0] in ("/", "//"):
                    div.append((z, e))
                elif nodata_of2(val) or nan(val):
                    fill.append((z, e))
                elif z and is_const(val):
                    rep.bad("empty-cells", "%s empty cells" % name, "cells that no input covers get %s"
                            % str(val)[:30], e.where)
            for z, e in div:
                if z:
                    rep.bad("empty-cells", "%s mean" % name, "the mean is taken where nothing was counted", e.where)
                elif not any(w for w, _ in fill) and not any(
                        nodata_of2(x) or nan(x) for e2 in path.events if e2.kind in ("store", "call", "mcall")
                        for y in walk(e2.term) if ext(y) == "numpy.where" for x in walk(y)):
                    rep.bad("empty-cells", "%s empty cells" % name, "cells that no input covers keep the number "
                            "they were initialised with", e.where)
                else:
                    rep.ok("%s: cells without values get the nodata value" % name, e.where)
            for z, e in fill:
                if not z:
                    rep.bad("empty-cells", "%s filled cells" % name, "cells that were counted get the nodata value",
                            e.where)


def zero_count(m):
    """does mask m select the cells whose count is zero (True) or not zero (False)"""
    pol = True
    while True:
        if m.op == "not" or (m.op == "un" and m.args[0] in ("~", "not")):
            pol, m = not pol, m.args[-1]
        elif m.op == "cmp" and m.args[0] == "==" and any(is_const(x) and not isinstance(cval(x), bool) and
                                                        cval(x) == 0 for x in m.args[1:]):
            return pol
        elif m.op == "cmp" and m.args[0] == "<" and is_const(m.args[1]) and cval(m.args[1]) == 0:
            return not pol
        elif m.op == "cmp" and m.args[0] == "==" and any(is_const(x) and isinstance(cval(x), bool)
                                                        for x in m.args[1:]):
            k = [x for x in m.args[1:] if is_const(x)][0]
            m = [x for x in m.args[1:] if x is not k][0]
            pol = pol if cval(k) else not pol
        else:
            return None


def cls_of(t):
    return str(t.args[0].args[0]).split(".")[-1] if t.op == "new" else None


def check_bilinear(p, rep):
    """every cell blended into a result has been compared with the nodata value, or has weight zero"""
    for name in KERNELS:
        f, bs = stores(p, name)
        if f is None:
            continue
        rep.fn(f.qual)
        for b in bs:
            if not b.reads or is_na(b.value):
                continue
            tested = na_tested(b)
            zero = []
            for c, t in b.conds:
                if t and c.op == "cmp" and c.args[0] == "==":
                    zero.append(b.corner.norm(c.args[1]) - b.corner.norm(c.args[2]))
            rows = lows("i", b.corner)
            cols = lows("j", b.corner)
            for x, r, k in b.reads:
                if (repr(r), repr(k)) in tested:
                    rep.ok("%s: cell compared with nodata before it is blended" % name, b.e.where)
                    continue
                one = rconst(1)
                ws = []
                for low in rows:
                    ws += [low + one - ratom("i")] if r.same(low) else [ratom("i") - low] if r.same(low + one) else []
                for low in cols:
                    ws += [low + one - ratom("j")] if k.same(low) else [ratom("j") - low] if k.same(low + one) else []
                if any(z.same(w) or z.same(-w) for z in zero for w in ws):
                    rep.ok("%s: cell not compared with nodata has weight zero" % name, b.e.where)
                else:
                    rep.bad("bilinear-nodata", "%s corner" % name,
                            "a cell is blended into the result without being compared with the nodata value",
                            b.e.where)


def inside_mask(m):
    """+1 / -1: m selects cells inside / outside the polygons; 0: unknown; None: not a polygon mask"""
    pol = 1
    while True:
        if m.op == "not" or (m.op == "un" and m.args[0] in ("~", "not")):
            pol, m = -pol, m.args[-1]
        elif ext(m) in ("numpy.logical_not", "numpy.invert"):
            pol, m = -pol, m.args[1][0][1]
        elif ext(m) in XMOVES and m.args[1]:
            m = m.args[1][0][1]
        elif m.op == "cmp" and m.args[0] == "==" and any(is_const(x) and isinstance(cval(x), bool)
                                                       for x in m.args[1:]):
            k = [x for x in m.args[1:] if is_const(x)][0]
            m = [x for x in m.args[1:] if x is not k][0]
            pol = pol if cval(k) else -pol
        elif m.op == "item":
            m = m.args[0]
        elif m.op == "mcall" and m.args[1] in MOVES:
            m = m.args[0]
        else:
            break
    if any(x.op == "call" and x.args[0].op == "func" and x.args[0].args[0].endswith(".mask_poly") or
           x.op == "lv" and False for x in walk(m)):
        if m.op in ("fold", "call", "bin", "phi"):
            return pol
        return 0
    return None


def check_mask_by_poly(p, rep):
    c = p.modules["karta.raster.grid"].classes["RegularGrid"]
    f = c.lookup("mask_by_poly")
    if f is None:
        return
    rep.fn(f.qual)
    for v, conds, where, path, i in returned(p, c, f, policy=P11(), rep=rep):
        for x in walk(v):
            if ext(x) == "numpy.where" and len(x.args[1]) == 3:
                m, a, b = [q for _, q in x.args[1]]
                pol = inside_mask(m)
                if not pol:
                    continue
                keep, fill = (a, b) if pol > 0 else (b, a)
                if any(raw(q) for q in walk(keep)) and not any(raw(q) for q in walk(fill)):
                    rep.ok("mask_by_poly keeps cells inside and fills the others with %s" % str(fill)[:30], where)
                elif any(raw(q) for q in walk(fill)):
                    rep.bad("poly-mask", "mask_by_poly result", "cells inside the polygon are filled, cells outside "
                            "are kept", where)
        folds = [x for t in [v] + [y for e in path.events for y in ([e.term] + [z for z in e.extra or () if
                 isinstance(z, T)])] for x in walk(t) if x.op == "fold"]
        for x in folds:
            if any(y.op == "attr" and y.args[1] == "subs" for y in walk(x.args[0])):
                continue                                # holes are taken out (C13)
            for cc, val in x.args[-1]:
                if any(y.op == "call" and y.args[0].op == "func" and y.args[0].args[0].endswith(".mask_poly")
                       for y in walk(val)) and any(y.op == "lv" for y in walk(val)):
                    if (val.op == "bin" and val.args[0] in ("|", "+")) or ext(val, ("numpy.logical_or",)):
                        rep.ok("mask_by_poly unites the masks of the polygons", where)
                    elif (val.op == "bin" and val.args[0] in ("&", "*", "^")):
                        rep.bad("poly-union", "mask_by_poly polygons", "the masks of several polygons are combined "
                                "with %s, not united" % val.args[0], where)
        for e in path.events:
            if e.kind == "store" and len(e.extra) > 1:
                key, val = e.extra[0], e.extra[1]
                pol = inside_mask(key)
                if pol:
                    own = nodata_of2(val)
                    if pol < 0 and own:
                        rep.ok("mask_by_poly fills cells outside with nodata", e.where)
                    elif own:
                        rep.bad("poly-mask", "mask_by_poly in place", "cells inside the polygon are filled", e.where)
                    elif is_const(val):
                        rep.bad("poly-mask", "mask_by_poly fill", "masked cells get %s, not the nodata value"
                                % str(val)[:40], e.where)


def run(p, rep):
    check_masks(p, rep)
    check_data_extent(p, rep)
    check_set_nodata(p, rep)
    check_apply(p, rep)
    check_merge(p, rep)
    check_means(p, rep)
    check_bilinear(p, rep)
    check_mask_by_poly(p, rep)
    for name in MODS:
        m = p.modules[name]
        for c, f in functions(p, (name,)):
            if f.name in SKIP or f.module.lang != "py":
                continue
            try:
                n = check_flow(p, rep, m, c, f)
            except Exception as ex:          # a construct the analysis does not know is no evidence
                rep.undec("%s: %s %s" % (qname(c, f), type(ex).__name__, ex))
                continue
            if n:
                rep.fn(f.qual)


def check():
    p = Program()
    rep = Report("C24", RULE)
    rep.minimum = 8
    run(p, rep)
    rep.assumptions.append("apart from masks, numpy operations propagate NaN")
    return rep
