"""C25: results derived from one geometry keep its properties and coordinate system."""
from ..loader import Program
from ..frames import Frames
from ..report import Report
from ..results import ResultPolicy, concrete, returned, results_in, new_class, has_rest, MULTI, geo_items
from ..terms import mk, walk, arg, contains, is_const, cval, NONE, T

TECHNIQUE = "result-construction contract analysis over path-wise value terms"
RULE = ("For every operation that returns a part of a geometry or the geometry in another position or shape, on every "
        "path each constructed result must receive the CRS of its source, the properties of its source (or, for an "
        "item of a multipart geometry, its row of the data table), and multipart results the data table rows of "
        "their source; constructors must store the properties and CRS they are given.")
PARTS = {
    "Point": ("apply_transform", "shift", "rotate", "walk"),
    "Line": ("__getitem__", "segments", "_subset", "apply_transform", "shift", "rotate", "to_polygon"),
    "Polygon": ("__getitem__", "segments", "_subset", "apply_transform", "shift", "rotate", "to_line"),
    "Multipoint": ("__getitem__", "_subset", "apply_transform", "shift", "rotate", "within_radius", "within_bbox",
                   "within_polygon"),
    "Multiline": ("__getitem__", "apply_transform", "within_bbox", "touching_bbox", "touching", "within"),
    "Multipolygon": ("__getitem__", "apply_transform", "within_bbox", "touching_bbox", "touching", "within"),
}


def holds(t, what):
    return t is not None and contains(t, what)


def empty_props(t):
    return t is None or t is NONE or (t.op == "dict" and not t.args)


def is_int_key(conds, key):
    for c, v in conds:
        if v and c.op == "isinstance" and c.args[0] is key:
            s = repr(c.args[1])
            if "slice" not in s:
                return True
        if v and c.op == "isinstance" and c.args[0] is key and "slice" in repr(c.args[1]):
            return False
    return None


def check():
    rep = Report("C25", RULE)
    rep.minimum = 40
    p = Program()
    for c in concrete(p):
        for name in PARTS.get(c.name, ()):
            f = c.lookup(name)
            if f is None:
                continue
            rep.fn("%s.%s" % (c.name, name))
            for v, conds, where, path, i in returned(p, c, f, rep=rep):
                if not f.pos:
                    continue
                one(rep, c, f, v, conds, where)
        init = c.lookup("__init__")
        if init is not None:
            ctor(p, rep, c, init)
    return rep


def one(rep, c, f, v, conds, where):
    selft = mk("param", f.pos[0])
    name = "%s.%s" % (c.name, f.name)
    props, data, crs = (mk("attr", selft, a) for a in ("properties", "data", "crs"))
    fr = Frames(conds, {selft: c.name})
    for t in results_in(v):
        k = new_class(t)
        if k not in PARTS:
            continue
        first = next((arg(t, n) for n in ("coords", "vertices", "inputs", 0) if arg(t, n) is not None), None)
        from_parts = first is not None and parts_of(first, selft)
        rest = has_rest(t)
        # coordinate system
        got = arg(t, "crs")
        if got is None and not rest and not from_parts:
            rep.bad("crs-dropped", name, "the resulting %s is built without the coordinate system of its source" % k,
                    where)
        elif got is not None:
            s = fr.same(got, crs)
            if s is False:
                rep.bad("crs-changed", name, "the resulting %s gets %s instead of the coordinate system of its source"
                        % (k, got), where)
            elif s:
                rep.ok("%s: %s keeps the CRS" % (name, k), where)
            else:
                rep.undec("%s: crs %s" % (name, got))
        # properties and data
        pr = arg(t, "properties")
        if c.name in MULTI and k not in MULTI:
            if pr is None and rest:
                continue
            if empty_props(pr):
                rep.bad("row-dropped", name, "the resulting %s is built without its row of data" % k, where)
            elif holds(pr, data) or any(x.op == "attr" and x.args[0] is selft and x.args[1] in ("d", "data", "_data")
                                        for x in walk(pr)):
                rep.ok("%s: %s gets its data row" % (name, k), where)
            elif holds(pr, props) and not from_parts:
                rep.bad("row-dropped", name, "the resulting %s gets the properties of the whole, not its row of data"
                        % k, where)
        else:
            if pr is None and rest:
                pass
            elif empty_props(pr):
                rep.bad("properties-dropped", name, "the resulting %s is built without the properties of its source"
                        % k, where)
            elif holds(pr, props):
                rep.ok("%s: %s keeps the properties" % (name, k), where)
            else:
                rep.undec("%s: properties %s" % (name, pr))
        if c.name in MULTI and k in MULTI:
            d = arg(t, "data")
            if d is None and (rest or from_parts):
                if from_parts:
                    rep.ok("%s: %s built from parts with their rows" % (name, k), where)
                continue
            if d is None or d is NONE or (d.op == "dict" and not d.args):
                rep.bad("data-dropped", name, "the resulting %s is built without the data of its source" % k, where)
            elif any(x.op == "attr" and x.args[0] is selft and x.args[1] in ("d", "data", "_data") for x in walk(d)):
                rep.ok("%s: %s keeps the data" % (name, k), where)
            else:
                rep.undec("%s: data %s" % (name, d))


def parts_of(t, selft):
    """list whose entries are parts self[i] (geometries that carry crs and row)"""
    if t.op == "list" and t.args:
        return all((e.op == "each" and e.args[3].op in ("item", "elem") and e.args[3].args[0] is selft) or
                   (e.op in ("item", "elem") and e.args[0] is selft) or
                   (e.op == "each" and e.args[3].op == "new" and "properties" in dict(e.args[3].args[1])) or
                   (e.op == "star" and parts_of(e.args[0], selft))
                   for e in t.args)
    return False


def ctor(p, rep, c, init):
    """the constructor stores what it is given"""
    pol = ResultPolicy()
    selft = mk("param", init.pos[0])
    kw = ("properties", "crs") if init.kwarg else None
    P, C = mk("param", "properties"), mk("param", "crs")
    conds = ((mk("isnone", P), False), (mk("isinstance", P, mk("ext", "dict")), True), (mk("isnone", C), False))
    vals = returned(p, c, init, policy=pol, conds=conds, kwkeys=kw, rep=rep)
    done = set()
    from ..interp import Interp
    i = Interp(p, pol)
    try:
        paths = i.run(init, c, kwkeys=kw, conds=conds)
    except Exception as e:
        rep.undec("%s.__init__: %s" % (c.name, e))
        return
    rep.fn("%s.__init__" % c.name)
    for path in paths:
        if path.kind != "return":
            continue
        pv = path.state.attrs.get((selft, "properties"))
        cv = path.state.attrs.get((selft, "crs"))
        if pv is not None:
            pv = i.reify(pv, path.state)
            if empty_props(pv):
                rep.bad("ctor-properties", c.name, "the constructor drops the properties it is given", path.where)
            elif contains(pv, P):
                rep.ok("%s stores its properties" % c.name, path.where)
        if cv is not None:
            cv = i.reify(cv, path.state)
            if contains(cv, C):
                rep.ok("%s stores its CRS" % c.name, path.where)
            elif cv.op in ("global", "const") or (cv.op == "attr" and cv.args[1] == "crs"):
                rep.bad("ctor-crs", c.name, "the constructor stores %s instead of the crs it is given" % cv,
                        path.where)
