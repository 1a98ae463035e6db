"""Coordinate frames of raster code: transforms, cell coordinates and the coordinate-taking methods of grids."""
from .frames import Frames, GEO
from .terms import T, mk, arg, is_const, cval, walk, NONE

TAKES = {"positions": ("x", "y"), "indices": ("x", "y"), "_indices": ("x", "y"), "sample_nearest": ("x", "y"),
         "sample_bilinear": ("x", "y"), "_align_origin": ("x", "y")}
OWN = ("_transform", "transform", "origin")


class GFrames(Frames):
    """seeds: {term: frame} for inputs whose system is documented"""
    def __init__(self, conds=(), types=None, report=None, seeds=None):
        super(GFrames, self).__init__(conds, types, report)
        self.seeds = seeds or {}

    def within(self, conds):
        return GFrames(self.conds + tuple(conds), self.types, None, self.seeds) if conds else self

    def crs_of(self, x, depth=0):
        if x.op == "new" and x.args[0].op == "class" and x.args[0].args[0].endswith("RegularGrid"):
            c = arg(x, "crs")
            if c is not None and c is not NONE:
                return c
            if any(k == "**" for k, _ in x.args[1]):
                return mk("unknown", "crs", 0)
            return mk("global", "karta.crs", "Cartesian")
        if x.op == "mcall" and x.args[1] in ("copy", "clip", "resize", "resample", "mask_by_poly", "apply",
                                             "_resample_transform"):
            return self.crs_of(x.args[0], depth + 1)
        if x.op == "attr" and x.args[1] == "crs":
            return mk("attr", x, "crs")
        return super(GFrames, self).crs_of(x, depth)

    def canon(self, c):
        if c.op in ("or", "ite") and len(c.args) >= 2:
            a, b = (c.args[0], c.args[1]) if c.op == "or" else (c.args[1], c.args[2])
            if c.op == "or":
                v = self.cond(mk("isnone", a))
                if v is not None:
                    return self.canon(b if v else a)
            return mk("unknown", "crs", 9)
        return super(GFrames, self).canon(c)

    def _frame(self, t):
        if t in self.seeds:
            return self.seeds[t]
        if t.op == "attr" and t.args[1] in OWN:
            c = self.crs_of(t.args[0])
            return ("C", c) if c.op != "unknown" else None
        if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] in OWN and is_const(t.args[1]) and \
                cval(t.args[1]) not in (0, 1, -6, -5):
            return None
        if t.op == "item" and t.args[1].op == "slice" and t.args[0].op == "attr" and t.args[0].args[1] in OWN and \
                all(is_const(a) for a in t.args[1].args) and cval(t.args[1].args[0]) not in (None, 0, 1):
            return None
        if t.op == "slice":
            return None
        if t.op == "bin" and t.args[0] in ("/", "//"):
            self.join([self.frame(t.args[1]), self.frame(t.args[2])], "the expression (.. / ..)")
            return None
        return super(GFrames, self)._frame(t)

    def mcall(self, t):
        x, m, pairs = t.args
        if m in TAKES and len(pairs) >= 2:
            cs = [self.frame(v) for k, v in pairs if k in TAKES[m] or k in (0, 1)]
            self.require(self.multi(cs), self.crs_of(x), "%s()" % m)
            return None
        if m == "sample" and pairs:
            c = arg(t, "crs")
            v = [a for k, a in pairs if isinstance(k, int) or a.op == "star"]
            if len(v) >= 2 or any(a.op == "star" for a in v):
                self.require(self.multi([self.frame(a) for a in v[:2]]),
                             c if c is not None and c is not NONE else self.crs_of(x), "sample()")
            return None
        if m == "clip" and len(pairs) >= 4:
            c = arg(t, "crs")
            v = [self.frame(a) for k, a in pairs if k != "crs"]
            self.require(self.multi(v), c if c is not None and c is not NONE else self.crs_of(x), "clip()")
            return None
        return super(GFrames, self).mcall(t)

    def fcall(self, t):
        f, pairs = t.args
        if f.op == "func" and f.args[0].endswith(".mask_poly"):
            v = [self.frame(a) for k, a in pairs if k in ("xpoly", "ypoly", "transform", 0, 1, 4)]
            self.join(v, "mask_poly()")
            return None
        if f.op == "func" and f.args[0].endswith(".gridpoints"):
            c = arg(t, "crs")
            v = [self.frame(a) for k, a in pairs if k in ("x", "y", "transform", 0, 1, 3)]
            if c is not None:
                self.require(self.multi(v), c, "gridpoints()")
            return None
        if f.op == "func" and f.args[0].startswith("karta.raster.crfuncs."):
            for k, a in pairs:
                self.frame(a)
            return None
        return super(GFrames, self).fcall(t)

    def new(self, t):
        c, pairs = t.args
        name = c.args[0].split(".")[-1] if c.op == "class" else None
        if name == "CoordinateGenerator":
            tr, own, out = arg(t, "transform"), arg(t, "transform_crs"), arg(t, "output_crs")
            if tr is None or own is None or out is None:
                return None
            self.require(self.frame(tr), own, "CoordinateGenerator(transform_crs=...)")
            return ("C", out)
        if name == "RegularGrid":
            tr = arg(t, "transform")
            for k, v in pairs:
                if v is not tr and k != "values" and k != "bands":
                    self.frame(v)
            if tr is not None:
                c = self.crs_of(t)
                if c.op != "unknown":
                    self.require(self.frame(tr), c, "RegularGrid(crs=...)")
            return None
        return super(GFrames, self).new(t)
