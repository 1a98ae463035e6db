"""Interface facts of the raster package used by several checks: which values are positions, counts, transforms."""
from .terms import T, mk, is_const, cval, walk, arg
from .units import X, Y, R, C, TR, Seq, NUM, Units
from .results import ResultPolicy

TRANSFORM = Seq(*TR)
SIZE = Seq(R, C)
XY = Seq(X, Y)
METHOD_RESULTS = {
    "extent": Seq(X, X, Y, Y), "data_extent": Seq(X, X, Y, Y), "bbox": Seq(X, Y, X, Y), "data_bbox": Seq(X, Y, X, Y),
    "center_llref": XY, "corner_llref": XY, "center_coords": XY, "coordmesh": XY, "vertex_coords": XY,
    "positions": Seq(R, C), "_indices": Seq(R, C), "indices": Seq(R, C), "coords": XY, "coordinates": XY,
    "get_vertex": XY, "vertex": XY, "project": XY, "get_indices": Seq(R, C), "get_positions": Seq(R, C),
}
ATTR_RESULTS = {"transform": TRANSFORM, "_transform": TRANSFORM, "size": SIZE, "resolution": Seq(TR[2], TR[3]),
                "origin": XY, "skew": Seq(TR[4], TR[5])}
#: parameters of the public functions (by name) that denote positions, counts, transforms
PARAMS = {
    "RegularGrid.__init__": {"transform": TRANSFORM},
    "RegularGrid.clip": {"xmin": X, "xmax": X, "ymin": Y, "ymax": Y},
    "RegularGrid.resize": {"bboxnew": Seq(X, Y, X, Y)},
    "RegularGrid._resample_transform": {"transform": TRANSFORM},
    "RegularGrid._align_origin": {"x": X, "y": Y},
    "RegularGrid.resample": {"dx": TR[2], "dy": TR[3]},
    "RegularGrid.positions": {"x": X, "y": Y}, "RegularGrid._indices": {"x": X, "y": Y},
    "RegularGrid.indices": {"x": X, "y": Y}, "RegularGrid.sample_nearest": {"x": X, "y": Y},
    "RegularGrid.sample_bilinear": {"x": X, "y": Y},
    "gridpoints": {"x": X, "y": Y, "transform": TRANSFORM},
    "mask_poly": {"xpoly": X, "ypoly": Y, "nx": C, "ny": R, "transform": TRANSFORM},
    "CoordinateGenerator.__init__": {"transform": TRANSFORM, "size": SIZE},
    "CoordinateGenerator.__getitem__": {"key": Seq(R, C)},
    "get_positions_vec": {"T": TRANSFORM, "x": X, "y": Y},
}
#: units of what public functions return
RESULTS = {
    "RegularGrid.extent": (X, X, Y, Y), "RegularGrid.data_extent": (X, X, Y, Y), "RegularGrid.bbox": (X, Y, X, Y),
    "RegularGrid.data_bbox": (X, Y, X, Y), "RegularGrid.center_llref": (X, Y), "RegularGrid.corner_llref": (X, Y),
    "RegularGrid.positions": (R, C), "RegularGrid._indices": (R, C), "RegularGrid.indices": (R, C),
    "RegularGrid.origin": (X, Y), "RegularGrid.resolution": (TR[2], TR[3]), "RegularGrid.skew": (TR[4], TR[5]),
    "CoordinateGenerator.__getitem__": (X, Y), "get_positions_vec": (R, C),
}
#: units of call arguments by callee name
CALLS = {
    "getblock": {"yoff": R, "xoff": C, "ny": R, "nx": C, 0: R, 1: C, 2: R, 3: C},
    "setblock": {"yoff": R, "xoff": C, 0: R, 1: C},
    "transform": {"x": X, "y": Y, 1: X, 2: Y},
    "positions": {"x": X, "y": Y, 0: X, 1: Y}, "_indices": {"x": X, "y": Y, 0: X, 1: Y},
    "indices": {"x": X, "y": Y, 0: X, 1: Y}, "sample_nearest": {"x": X, "y": Y, 0: X, 1: Y},
    "sample_bilinear": {"x": X, "y": Y, 0: X, 1: Y},
    "get_positions_vec": {"x": X, "y": Y, 1: X, 2: Y},
    "sample_bilinear_double": {"I": R, "J": C, 0: R, 1: C}, "sample_bilinear_int": {"I": R, "J": C, 0: R, 1: C},
    "sample_bilinear_uint": {"I": R, "J": C, 0: R, 1: C},
    "fillarray_double": {"I": R, "J": C, 1: R, 2: C},
    "mask_poly": {"xpoly": X, "ypoly": Y, "nx": C, "ny": R, 0: X, 1: Y, 2: C, 3: R},
    "clip": {"xmin": X, "xmax": X, "ymin": Y, "ymax": Y, 0: X, 1: X, 2: Y, 3: Y},
}
SHAPED = ("numpy.empty", "numpy.zeros", "numpy.ones", "numpy.full")
GRIDS = {"RegularGrid", "WarpedGrid"}


class GridPolicy(ResultPolicy):
    """Inline the raster package's Python code; geometry, CRS and band classes stay opaque."""
    max_depth = 4
    no_inline = ("transform",)
    opaque = ("karta.geodesy", "karta.crs", "karta.raster.band", "karta.vector.geometry", "karta.raster._gdal",
              "karta.raster._aai", "karta.raster.read")

    def inline(self, interp, f, recv, depth):
        if f.module.lang != "py" or f.module.name in self.opaque:
            return False
        return f.name not in self.no_inline


def qname(c, f):
    return "%s.%s" % (c.name, f.name) if c is not None else f.name


def seeder(qn, selfname="self"):
    params = PARAMS.get(qn, {})

    def seed(t):
        if t.op == "param":
            return params.get(t.args[0])
        if t.op == "attr" and t.args[1] in ATTR_RESULTS:
            return ATTR_RESULTS[t.args[1]]
        if t.op == "mcall":
            if t.args[1] == "transform" and arg(t, 1, "x") is not None:
                return XY
            return METHOD_RESULTS.get(t.args[1])
        if t.op == "call" and t.args[0].op == "func":
            n = t.args[0].args[0].split(".")[-1]
            if n == "get_positions_vec":
                return Seq(R, C)
            return None
        if t.op == "idx" and t.args[0].op == "item" and is_grid(t.args[0].args[0]):
            return R
        if t.op == "item" and t.args[0].op == "mcall" and t.args[0].args[1] == "indices" and is_const(t.args[1]):
            return None
        return None
    return seed


def is_grid(t):
    return t.op == "self" or (t.op == "param" and t.args[0] in ("self", "grid", "other")) or \
        (t.op == "elem" and t.args[0].op == "param" and t.args[0].args[0] == "grids")


def all_terms(path, value, interp):
    seen = set()
    for e in path.events:
        for t in (e.term,) + tuple(x for x in (e.extra or ()) if isinstance(x, T)):
            for s in walk(t, seen):
                yield s, e.where
    for c, _ in path.conds:
        for s in walk(c, seen):
            yield s, path.where
    if value is not None:
        for s in walk(value, seen):
            yield s, path.where
