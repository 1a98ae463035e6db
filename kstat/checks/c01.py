"""C01: vector operations bring every operand into one coordinate system."""
from ..loader import Program
from ..interp import Interp, Policy, Overflow
from ..terms import mk, const
from ..frames import Frames, CRS_METHODS, GEOM_CLASSES
from ..report import Report

RULE = ("Coordinate-frame inference over the trace-partitioned value terms of every method of every concrete "
        "geometry class: coordinates are tagged with the CRS they are expressed in, crs-taking accessors, "
        "transform/project/forward/inverse, constructors, spatial indexes and compiled kernels have frame "
        "contracts; a path on which two provably independent frames are combined without conversion, or a frame "
        "is relabelled, is a violation.")
TECHNIQUE = "coordinate-frame dataflow inference over path-wise value terms"
GEOM = "karta.vector.geometry"
CONTRACT = set(CRS_METHODS) - {"_vertices_in", "_segment_tuples_in"}


class FramePolicy(Policy):
    max_states = 200
    max_depth = 4
    no_inline = tuple(CONTRACT) + ("project", "forward", "inverse", "transform", "distance", "azimuth",
                                   "apply_transform", "__getitem__", "segments")

    def __init__(self, entry=None):
        self.entry = entry

    def inline(self, interp, f, recv, depth):
        if f.module.lang != "py" or f.module.name in ("karta.geodesy", "karta.vector.table", "karta.crs"):
            return False
        if f.name in ("_as_nested_lists", "_as_nested_tuples", "_flatten"):
            return False
        return f.name not in self.no_inline

    def resolve_method(self, interp, base, name, st):
        if name in self.no_inline:
            return None
        fs = [f for f in interp.p.by_method.get(name, []) if f.module.name == GEOM]
        if len(fs) == 1 and name.startswith("_") and not name.startswith("__") and not fs[0].is_property:
            return fs[0]
        return None


def concrete(p):
    m = p.modules[GEOM]
    return [m.classes[n] for n in sorted(GEOM_CLASSES) if n in m.classes]


def entries(p):
    """(class, function) pairs: every method visible on a concrete geometry class."""
    out = []
    for c in concrete(p):
        seen = set()
        for k in c.mro():
            if k.module.name != GEOM:
                continue
            for n, f in sorted(k.methods.items()):
                if n in ("__eq__", "__ne__", "__neq__", "__hash__"):
                    continue        # equality compares representations, see C16
                if n not in seen:
                    seen.add(n)
                    out.append((c, f))
    return out


def analyse(p, rep, c, f, policy=None, kwkeys=None, conds=()):
    i = Interp(p, policy or FramePolicy())
    try:
        paths = i.run(f, c, kwkeys=kwkeys, conds=conds)
    except Overflow:
        rep.undec("%s: trace partition too large" % f.qual)
        return i, []
    except RecursionError:
        rep.undec("%s: too deep" % f.qual)
        return i, []
    except Exception as e:            # an unsupported shape stays undecided
        rep.undec("%s: %s %s" % (f.qual, type(e).__name__, e))
        return i, []
    return i, paths


def evaluate(i, path, rep, c, f, types):
    seen = set()
    for ev in path.events:
        if ev.kind not in ("call", "mcall", "new", "store", "setattr", "aug", "yield"):
            continue
        fr = Frames(ev.conds, types)
        fr.frame(ev.term)
        if ev.kind == "store":
            fr.join([fr.frame(ev.term), fr.frame(ev.extra[1])], "an item assignment")
        if ev.kind == "aug":
            fr.join([fr.frame(ev.term), fr.frame(ev.extra[1])], "an augmented assignment")
        yield fr, ev.where, ev.fn
    fr = Frames(path.conds, types)
    if path.value is not None and path.kind == "return":
        fr.frame(i.reify(path.value, path.state))
    for cnd, v in path.conds:
        fr.frame(cnd)
    yield fr, path.where, f.qual


def short(q):
    return ".".join(q.split(".")[-2:])


def check():
    rep = Report("C01", RULE)
    rep.assumptions = [
        "geographical coordinates obtained by inverse projection are comparable across geographical systems (documented)",
        "bare coordinate tuples passed by the caller are in the receiver's system (they carry no CRS)"]
    rep.minimum = 60
    p = Program()
    todo = [(c, f, None) for c, f in entries(p)]
    m = p.modules[GEOM]
    todo += [(None, f, None) for f in m.funcs.values()]
    for mod in ("karta.vector._geojson", "karta.vector.read", "karta.vector._gpx"):
        if mod in p.modules:
            todo += [(None, f, None) for f in p.modules[mod].funcs.values()]
            for k in p.modules[mod].classes.values():
                todo += [(k, f, None) for f in k.methods.values()]
    jobs = []
    for c, f, _ in todo:
        if f.kwarg and f.name in ("__init__", "merge"):
            jobs.append((c, f, ("crs",)))
            jobs.append((c, f, ()))
        else:
            jobs.append((c, f, None))
    for c, f, kw in jobs:
        rep.fn((c.name + "." if c else "") + f.name)
        conds = ((mk("isnone", mk("param", "crs")), False),) if kw else ()
        i, paths = analyse(p, rep, c, f, kwkeys=kw, conds=conds)
        types = {}
        if c is not None and f.pos and c.name in GEOM_CLASSES:
            types[mk("param", f.pos[0])] = c.name
        for path in paths:
            for fr, where, fn in evaluate(i, path, rep, c, f, types):
                for rule, msg in fr.hits:
                    rep.bad(rule, short(fn), msg, where)
                for o in fr.oks:
                    rep.ok("%s: %s" % (short(fn), o), where)
            if f.name == "__init__" and path.kind == "return" and c is not None and c.name in GEOM_CLASSES:
                init_consistent(i, path, rep, c, f, types)
    return rep


def init_consistent(i, path, rep, c, f, types):
    s = mk("param", f.pos[0])
    crs = path.state.attrs.get((s, "crs"))
    v = path.state.attrs.get((s, "_vertices")) or path.state.attrs.get((s, "_vertex"))
    if crs is None or v is None:
        return
    fr = Frames(path.conds, types)
    fr.require(fr.frame(i.reify(v, path.state)), crs, "the stored coordinate system")
    for rule, msg in fr.hits:
        rep.bad("init-frame", c.name + ".__init__", msg, path.where)
    for o in fr.oks:
        rep.ok(c.name + ".__init__: " + o, path.where)
