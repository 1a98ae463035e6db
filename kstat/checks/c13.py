"""C13: holes of polygons survive every conversion."""
import itertools

from ..loader import Program
from ..report import Report
from ..interp import Interp, Overflow
from ..results import ResultPolicy, returned, new_class, has_rest
from ..cover import coverage
from ..terms import mk, walk, arg, contains, is_const, cval, const, fmt, NONE, T

TECHNIQUE = "iteration-coverage analysis of sub-polygon collections on path-wise value terms"
RULE = ("Every value an operation builds from a polygon's outline must also contain every element of its sub-polygon "
        "list (no slice, single index or filter), transformed like the outline; multipolygon ring lists are read and "
        "written whole; a polygon read from the first ring of a ring list gets the remaining rings; area subtracts, "
        "perimeter adds and containment excludes each sub-polygon on every path; rings that are written out are the "
        "closed rings.")
GEOM = "karta.vector.geometry"
MEASURE = {"area": "-", "perimeter": "+"}
KNOWN_SUBLESS = ("vertices", "vertex", "coords", "bbox", "extent", "_vertices", "crs", "properties", "_geotype",
                 "vertices_ring", "get_vertices", "ispolar", "length", "segments", "rank", "isclockwise")


class Pol(ResultPolicy):
    no_inline = ResultPolicy.no_inline + ("apply_transform",)

    def __init__(self, top=None):
        self.top = top

    def inline(self, interp, f, recv, depth):
        if f.name == "apply_transform" and recv is not None and recv.op == "param":
            return True
        return ResultPolicy.inline(self, interp, f, recv, depth)


def judge(rep, t, S, start, rule, name, what, where):
    """t must contain all of S from index start"""
    v = coverage(t, S, start)
    if v == "full":
        rep.ok("%s: %s" % (name, what), where)
    elif v == "partial":
        rep.bad(rule, name, "%s: only some of %s are used" % (what, S), where)
    elif v == "none":
        P = S.args[0] if S.op == "attr" else None
        if P is not None and escapes(t, P):
            rep.undec("%s: %s (the polygon is handed on whole)" % (name, what))
        else:
            rep.bad(rule, name, "%s: %s are left out" % (what, S), where)
    else:
        rep.undec("%s: %s" % (name, what))
    return v


def escapes(t, P):
    """is P itself handed to something (other than known accessors)"""
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "attr" and x.args[0] is P:
            if x.args[1] not in KNOWN_SUBLESS:
                return True
            continue
        if x.op == "mcall" and x.args[0] is P:
            if x.args[1] not in KNOWN_SUBLESS:
                return True
            stack.extend(x.args[1:])
            continue
        if x.op in ("elem", "item", "len", "isinstance", "hasattr") and x.args[0] is P:
            continue
        if x is P:
            return True
        stack.extend(x.args)
    return False


def whole_outline(t, P):
    """does t consist of the complete outline of P (perhaps reprojected or mapped)"""
    for V in [mk("attr", P, "_vertices")] + [x for x in walk(t) if x.op == "mcall" and x.args[0] is P
                                            and x.args[1] in ("vertices", "get_vertices")]:
        if contains(t, V) and coverage(t, V) == "full":
            return True
    return False


def geotype_conds(base, kind):
    g = mk("attr", base, "_geotype")
    out = []
    for k in ("Point", "Line", "Polygon", "Multipoint", "Multiline", "Multipolygon"):
        out.append((mk("cmp", "==", const(k), g), k == kind))
    return tuple(out)


def check():
    rep = Report("C13", RULE)
    rep.minimum = 12
    p = Program()
    m = p.modules[GEOM]
    poly, multi = m.classes.get("Polygon"), m.classes.get("Multipolygon")
    if poly is not None:
        polygon_methods(p, rep, poly)
        measures(p, rep, poly)
        containment(p, rep, poly)
        geo_writers(p, rep, poly, "Polygon")
        ring_property(p, rep, poly)
    if multi is not None:
        multi_methods(p, rep, multi)
        geo_writers(p, rep, multi, "Multipolygon")
        ring_property(p, rep, multi)
    readers(p, rep)
    ogr(p, rep)
    masks(p, rep)
    return rep


def methods_of(c):
    seen = set()
    for k in c.mro():
        for n, f in getattr(k, "methods", {}).items():
            if n not in seen:
                seen.add(n)
                yield n, f


def polygon_methods(p, rep, poly):
    for n, f in methods_of(poly):
        if not f.pos or f.is_static or n == "__init__" or n == "convex_hull":
            continue
        P = mk("param", f.pos[0])
        S = mk("attr", P, "subs")
        name = "Polygon.%s" % n
        for v, conds, where, path, i in returned(p, poly, f, policy=Pol()):
            rep.fn(name)
            for t in walk(v):
                if t.op != "new":
                    continue
                k = new_class(t)
                if k == "Polygon":
                    vs = arg(t, "vertices")
                    if vs is None or not whole_outline(vs, P):
                        continue
                    sb = arg(t, "subs")
                    if sb is None or sb is NONE or (sb.op == "list" and not sb.args):
                        if has_rest(t) and sb is None:
                            rep.undec("%s: keyword arguments" % name)
                        else:
                            rep.bad("subs-dropped", name, "a Polygon is built from the whole outline without its "
                                    "sub-polygons", where)
                        continue
                    if judge(rep, sb, S, 0, "subs-dropped", name, "sub-polygons of the result", where) != "full":
                        continue
                    mapped = any(x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0] in
                                 ("numpy.dot", "numpy.matmul") for x in walk(vs)) or any(x.op == "bin" for x in walk(vs))
                    if mapped:
                        bare(rep, sb, S, name, where, vs)
                elif k == "Multipolygon":
                    inp = arg(t, "inputs")
                    if inp is None:
                        continue
                    for Q in [P] + [mk("param", a) for a in f.pos[1:]]:
                        if whole_outline(inp, Q):
                            judge(rep, inp, mk("attr", Q, "subs"), 0, "subs-dropped", name,
                                  "sub-polygons of %s" % Q, where)


def bare(rep, sb, S, name, where, vs):
    """the outline is moved: sub-polygons must be moved too"""
    if sb is S or (sb.op == "call" and len(sb.args[1]) == 1 and sb.args[1][0][1] is S):
        rep.bad("subs-unmoved", name, "the outline is transformed but the sub-polygons are passed on unchanged", where)
        return
    for e in walk(sb):
        if e.op == "each" and contains(e.args[0], S):
            el = mk("elem", e.args[0], e.args[1])
            if e.args[3] is el:
                rep.bad("subs-unmoved", name, "the outline is transformed but the sub-polygons are not", where)
                return
            b = e.args[3]
            if b.op == "mcall" and b.args[0] is el and b.args[1] in ("apply_transform", "shift", "rotate"):
                for _, a in b.args[2]:
                    if a.op != "const" and not contains(vs, a):
                        rep.undec("%s: sub-polygon transform %s" % (name, a))
                rep.ok("%s: sub-polygons transformed" % name, where)


def sign_of(t, S):
    """sign with which the sum over S enters t: +1, -1, 0 mixed/unknown, None absent"""
    if not contains(t, S):
        return None
    if t.op == "bin" and t.args[0] in ("+", "-"):
        a, b = sign_of(t.args[1], S), sign_of(t.args[2], S)
        if b is not None and t.args[0] == "-":
            b = -b
        if a is None:
            return b
        if b is None:
            return a
        return a if a == b else 0
    if t.op == "un" and t.args[0] in ("-", "USub"):
        return -(sign_of(t.args[1], S) or 0)
    if t.op == "fold":
        if contains(t.args[0], S):
            out = set()
            for c, v in t.args[4]:
                if v is t.args[2]:
                    continue
                if v.op == "bin" and v.args[0] in ("+", "-") and v.args[1] is t.args[2]:
                    out.add(1 if v.args[0] == "+" else -1)
                elif v.op == "bin" and v.args[0] == "+" and v.args[2] is t.args[2]:
                    out.add(1)
                else:
                    out.add(0)
            return out.pop() if len(out) == 1 else 0
        return 0
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("sum", "abs", "float", "math.fsum",
                                                                           "numpy.sum"):
        xs = [sign_of(a, S) for _, a in t.args[1]]
        xs = [x for x in xs if x is not None]
        if t.args[0].args[0] == "abs" and t.args[1] and t.args[1][0][1].op != "mcall":
            return xs[0] if xs and sum_only(t.args[1][0][1], S) else 0
        return xs[0] if xs else None
    return 1 if t.op in ("list", "gen", "tuple", "each", "attr", "mcall", "elem") else 0


def sum_only(t, S):
    return t.op in ("call", "fold") or not any(x.op == "bin" for x in walk(t))


def measures(p, rep, poly):
    for n, want in MEASURE.items():
        f = poly.lookup(n)
        if f is None:
            continue
        P = mk("param", f.pos[0])
        S = mk("attr", P, "subs")
        name = "Polygon.%s" % n
        rep.fn(name)
        for v, conds, where, path, i in returned(p, poly, f, policy=Pol(), rep=rep):
            if any(val and mk_empty(c, S) for c, val in conds):
                continue
            if judge(rep, v, S, 0, "measure-subs", name, "sum over the sub-polygons", where) != "full":
                continue
            s = sign_of(v, S)
            if s in (1, -1):
                if (s == 1) != (want == "+"):
                    rep.bad("measure-sign", name, "sub-polygons are %s" % ("added" if s == 1 else "subtracted"), where)
                else:
                    rep.ok("%s: sign of the sub-polygons" % name, where)
            used = {x.args[1] for x in walk(v) if x.op in ("attr", "mcall") and x.args[0].op == "elem"
                    and contains(x.args[0], S)}
            other = {"area": {"perimeter", "length"}, "perimeter": {"area"}}[n]
            if used & other:
                rep.bad("measure-kind", name, "the %s of the sub-polygons is used" % "/".join(used & other), where)


def mk_empty(c, S):
    """a condition that says there are no sub-polygons"""
    L = mk("len", S)
    return c.op == "cmp" and c.args[0] == "==" and L in c.args[1:] and const(0) in c.args[1:]


def containment(p, rep, poly):
    f = poly.lookup("contains")
    if f is None or len(f.pos) < 2:
        return
    P = mk("param", f.pos[0])
    S = mk("attr", P, "subs")
    name = "Polygon.contains"
    rep.fn(name)
    for v, conds, where, path, i in returned(p, poly, f, policy=Pol(), rep=rep):
        if is_const(v) and cval(v) is False:
            continue
        if any(val and mk_empty(c, S) for c, val in conds):
            continue
        if any((c is S and not val) for c, val in conds):
            continue
        cov = coverage(v, S)
        if cov == "full":
            pol = polarity(v, S)
            if pol in ("pos", "wrong"):
                rep.bad("contains-polarity", name, "a point inside one of the sub-polygons may count as contained", where)
            else:
                rep.ok("%s excludes sub-polygons" % name, where)
            continue
        incond = [(c, val) for c, val in conds if contains(c, S)]
        if incond:
            if any(coverage(c, S) == "partial" for c, val in incond):
                rep.bad("contains-subs", name, "only some sub-polygons are consulted", where)
            else:
                rep.ok("%s: sub-polygons decide the path" % name, where)
            continue
        if cov == "partial":
            rep.bad("contains-subs", name, "only some sub-polygons are consulted", where)
        elif cov == "none" and not escapes(v, P) and not any(escapes(c, P) for c, _ in conds if contains(c, P)):
            rep.bad("contains-subs", name, "a path answers without consulting the sub-polygons", where)
        else:
            rep.undec("%s: %s" % (name, where))


def polarity(t, S):
    """'neg' if S only occurs under one negation, 'pos' under none"""
    if not contains(t, S):
        return None
    if t.op == "not":
        r = polarity(t.args[0], S)
        return {"pos": "neg", "neg": "pos", "allpos": "wrong", "anyneg": "neg?"}.get(r, r)
    if t.op in ("and", "or"):
        rs = {polarity(a, S) for a in t.args if isinstance(a, T)} - {None}
        return rs.pop() if len(rs) == 1 else "mixed"
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("any", "bool", "all"):
        for e in walk(t):
            if e.op == "each":
                r, q = polarity_el(e.args[3]), t.args[0].args[0]
                if q == "all":
                    return {"pos": "allpos", "neg": "neg"}.get(r, "mixed")
                if q == "any":
                    return {"pos": "pos", "neg": "wrong"}.get(r, "mixed")
        return "mixed"
    if t.op == "fold":
        return "mixed"
    return "mixed"


def polarity_el(b):
    n = 0
    while b.op == "not":
        n += 1
        b = b.args[0]
    if b.op == "mcall" and b.args[1] == "contains":
        return "pos" if n % 2 == 0 else "neg"
    return "mixed"


def closing_list(t):
    """list whose last entry repeats its first vertex"""
    if t.op == "list" and len(t.args) >= 2:
        last = t.args[-1]
        if last.op == "item" and is_const(last.args[1]) and cval(last.args[1]) == 0:
            return True
        if last.op == "star" and last.args[0].op == "item" and last.args[0].args[1].op == "slice":
            return True
        if last is t.args[0]:
            return True
    return t.op == "bin" and t.args[0] == "+"


def ring_property(p, rep, c):
    f = c.lookup("vertices_ring")
    if f is None:
        return
    P = mk("param", f.pos[0])
    name = "%s.vertices_ring" % c.name
    rep.fn(name)
    V = mk("attr", P, "_vertices")
    for v, conds, where, path, i in returned(p, c, f, policy=Pol(), rep=rep):
        closed = [x for x in walk(v) if closing_list(x)]
        if closed:
            rep.ok("%s is closed" % name, where)
        elif any(x.op in ("mcall", "call") and x.args[0] is not None and "extend" in repr(x)[:60] for x in walk(v)):
            rep.undec(name)
        elif not any(contains(cc, V) for cc, _ in conds) and simple_vertices(v, P):
            rep.bad("ring-open", name, "the ring is not closed with its first vertex", where)
        if c.name == "Multipolygon":
            judge(rep, v, V, 0, "rings-dropped", name, "all parts", where)
            for e in walk(v):
                if e.op == "each" and e.args[0] is V:
                    judge(rep, e.args[3], mk("elem", V, e.args[1]), 0, "rings-dropped", name, "all rings of a part",
                          where)


def simple_vertices(t, P):
    """nothing but list building around the raw vertices"""
    return all(x.op in ("list", "each", "elem", "attr", "param", "call", "ext", "mcall", "const", "len", "item", "star")
               for x in walk(t))


def ring_sources(t, P, S):
    """(ring term, closed?) for the outline of P and its sub-polygons inside a written value"""
    out = []
    for x in walk(t):
        if x.op == "attr" and x.args[1] == "vertices_ring":
            out.append((x, True))
    return out


def geo_writers(p, rep, c, kind):
    for n in ("geomdict", "__geo_interface__", "_as_named_tuple", "as_geojson"):
        f = c.lookup(n)
        if f is None:
            continue
        base = mk("param", f.pos[0])
        name = "%s.%s" % (c.name, n)
        conds0 = geotype_conds(base, kind)
        if n == "as_geojson":
            # the object written is either self or a reprojected copy; only the written copy matters
            continue
        vals = returned(p, c, f, policy=Pol(), conds=conds0, rep=rep)
        for v, conds, where, path, i in vals:
            if v is NONE:
                continue
            rep.fn(name)
            coords = written(v, kind)
            for ct in coords:
                if kind == "Polygon":
                    judge(rep, ct, mk("attr", base, "subs"), 0, "subs-unwritten", name, "sub-polygons written", where)
                else:
                    V = mk("attr", base, "_vertices")
                    if contains(ct, mk("attr", base, "vertices_ring")):
                        rep.ok("%s: closed rings of all parts" % name, where)
                    elif contains(ct, V):
                        judge(rep, ct, V, 0, "rings-dropped", name, "all parts written", where)
                        for e in walk(ct):
                            if e.op == "each" and e.args[0] is V:
                                judge(rep, e.args[3], mk("elem", V, e.args[1]), 0, "rings-dropped", name,
                                      "all rings written", where)
                openness(rep, ct, base, name, where)


def openness(rep, ct, base, name, where):
    """raw vertices written where a closed ring is due"""
    closed = {id(x) for y in walk(ct) if closing_list(y) for x in walk(y)}
    for x in walk(ct):
        owner = x.args[0] if x.op in ("attr", "mcall") else None
        if owner is None or not (owner is base or (owner.op == "elem" and contains(owner, mk("attr", base, "subs")))):
            continue
        if (x.op == "mcall" and x.args[1] in ("vertices", "get_vertices")) or \
                (x.op == "attr" and x.args[1] == "_vertices" and id(x) not in closed):
            if any(closing_list(y) and contains(y, x) for y in walk(ct)):
                continue
            rep.bad("ring-open", name, "%s is written without closing the ring" % x, where)
            return
    rep.ok("%s: rings closed" % name, where)


def written(v, kind):
    """coordinate payloads of geo-interface dictionaries or picogeojson objects"""
    out = []
    for x in walk(v):
        if x.op == "dict":
            for e in x.args:
                if e.op == "kv" and is_const(e.args[0]) and cval(e.args[0]) == "coordinates":
                    out.append(e.args[1])
        if x.op == "call" and x.args[0].op == "ext" and x.args[0].args[0].split(".")[-1] in ("Polygon", "MultiPolygon") \
                and x.args[0].args[0].startswith("picogeojson"):
            a = [y for k, y in x.args[1] if k == 0 or k == "coordinates"]
            out.extend(a)
    return out


def multi_methods(p, rep, multi):
    init = multi.lookup("__init__")
    if init is not None:
        i = Interp(p, Pol())
        selft = mk("param", init.pos[0])
        inp = mk("param", init.pos[1]) if len(init.pos) > 1 else None
        name = "Multipolygon.__init__"
        rep.fn(name)
        try:
            paths = i.run(init, multi)
        except Exception as e:
            paths = []
            rep.undec("%s: %s" % (name, e))
        for x in paths:
            if x.kind != "return":
                continue
            v = x.state.attrs.get((selft, "_vertices"))
            if v is None or inp is None:
                continue
            v = i.reify(v, x.state)
            if v.op == "list" and not v.args:
                continue
            if coverage(v, inp) == "partial":
                rep.bad("rings-dropped", name, "only some of the inputs become parts", x.where)
            for y in walk(v):
                if y.op == "each" and iterates(y.args[0], inp):
                    el = mk("elem", y.args[0], y.args[1])
                    S = mk("attr", el, "subs")
                    b = y.args[3]
                    outl = any(z.op in ("mcall", "attr") and z.args[0] is el and z.args[1] in
                               ("vertices", "_vertices", "get_vertices", "vertices_ring") for z in walk(b))
                    if outl:
                        judge(rep, b, S, 0, "subs-dropped", name, "sub-polygons of an input polygon", x.where)
                    elif contains(b, el):
                        judge(rep, b, el, 0, "rings-dropped", name, "rings of an input part", x.where)
    f = multi.lookup("__getitem__")
    if f is not None:
        selft = mk("param", f.pos[0])
        V = mk("attr", selft, "_vertices")
        name = "Multipolygon.__getitem__"
        rep.fn(name)
        for v, conds, where, path, i in returned(p, multi, f, policy=Pol(), rep=rep):
            for t in walk(v):
                if t.op == "new" and new_class(t) == "Polygon":
                    first_ring(rep, t, name, where)
    f = multi.lookup("vertices")
    if f is not None:
        V = mk("attr", mk("param", f.pos[0]), "_vertices")
        name = "Multipolygon.vertices"
        rep.fn(name)
        for v, conds, where, path, i in returned(p, multi, f, policy=Pol(), rep=rep):
            judge(rep, v, V, 0, "rings-dropped", name, "parts", where)
            for e in walk(v):
                if e.op == "each" and e.args[0] is V:
                    judge(rep, e.args[3], mk("elem", V, e.args[1]), 0, "rings-dropped", name, "rings of a part", where)
    f = multi.lookup("merge")
    if f is not None:
        name = "Multipolygon.merge"
        rep.fn(name)
        for v, conds, where, path, i in returned(p, multi, f, policy=Pol(), rep=rep):
            for t in walk(v):
                if t.op == "new" and new_class(t) == "Multipolygon" and arg(t, "inputs") is not None:
                    for e in walk(arg(t, "inputs")):
                        if e.op != "each":
                            continue
                        el = mk("elem", e.args[0], e.args[1])
                        if not any(c.op == "cmp" and c.args[0] == "==" and val and const("Polygon") in c.args
                                   for c, val in e.args[2]):
                            continue
                        if any(z.op in ("mcall", "attr") and z.args[0] is el and z.args[1] in ("vertices", "_vertices")
                               for z in walk(e.args[3])):
                            judge(rep, e.args[3], mk("attr", el, "subs"), 0, "subs-dropped", name,
                                  "sub-polygons of a merged polygon", where)
    f = multi.lookup("apply_transform")
    if f is not None:
        selft = mk("param", f.pos[0])
        name = "Multipolygon.apply_transform"
        rep.fn(name)
        V = mk("attr", selft, "_vertices")
        for v, conds, where, path, i in returned(p, multi, f, policy=Pol()):
            for t in walk(v):
                if t.op == "new" and new_class(t) == "Multipolygon" and arg(t, "inputs") is not None:
                    inp = arg(t, "inputs")
                    for e in walk(inp):
                        if e.op == "each" and (e.args[0] is V or (e.args[0].op == "mcall" and e.args[0].args[0] is selft
                                                                  and e.args[0].args[1] == "vertices")):
                            judge(rep, e.args[3], mk("elem", e.args[0], e.args[1]), 0, "rings-dropped", name,
                                  "rings of a part", where)
                        elif e.op == "each" and e.args[0] is selft:
                            el = mk("elem", selft, e.args[1])
                            judge(rep, e.args[3], el, 0, "rings-dropped", name, "part", where)


def iterates(it, inp):
    return it is inp or (it.op == "call" and any(a is inp for _, a in it.args[1]))


def first_ring(rep, t, name, where):
    """a Polygon whose outline is ring 0 of a ring list gets the remaining rings"""
    vs = arg(t, "vertices")
    C = None
    for x in (walk(vs) if vs is not None else ()):
        if x.op == "item" and is_const(x.args[1]) and cval(x.args[1]) == 0 and rings(x.args[0]):
            C = x.args[0]
            break
    if C is None:
        return
    sb = arg(t, "subs")
    if sb is None or sb is NONE or (sb.op == "list" and not sb.args):
        if sb is None and has_rest(t):
            rep.undec("%s: keyword arguments" % name)
        else:
            rep.bad("rings-dropped", name, "a Polygon is built from the first ring of %s, the others are dropped" % C,
                    where)
        return
    judge(rep, sb, C, 1, "rings-dropped", name, "rings after the first of %s" % C, where)


def rings(t):
    """ring list by its origin: 'coordinates' of an interchange object or an element of _vertices"""
    if t.op == "attr" and t.args[1] == "coordinates":
        return True
    if t.op == "item":
        if is_const(t.args[1]) and cval(t.args[1]) == "coordinates":
            return True
        if t.args[0].op == "attr" and t.args[0].args[1] == "_vertices" and not is_const(t.args[1]):
            return True
    return False


def readers(p, rep):
    m = p.modules.get("karta.vector.read")
    if m is None:
        return
    for n in ("_from_shape", "read_geojson", "from_shape"):
        f = p.func("karta.vector.read.%s" % n)
        if f is None:
            continue
        name = "read.%s" % n
        rep.fn(name)
        for v, conds, where, path, i in returned(p, None, f, policy=Pol(), rep=rep):
            for t in walk(v):
                if t.op != "new":
                    continue
                if new_class(t) == "Polygon":
                    first_ring(rep, t, name, where)
                elif new_class(t) == "Multipolygon" and arg(t, "inputs") is not None:
                    inp = arg(t, "inputs")
                    for C in [x for x in walk(inp) if rings(x)]:
                        judge(rep, inp, C, 0, "rings-dropped", name, "parts", where)
                        els = {x for x in walk(inp) if x.op == "elem" and x.args[0] is C}
                        for el in els:
                            judge(rep, inp, el, 0, "rings-dropped", name, "rings of a part", where)


def ogr(p, rep):
    m = p.modules.get("karta.vector._shp")
    if m is None:
        return
    f = p.func("karta.vector._shp.ogr_get_polygon_points")
    if f is not None:
        name = "_shp.ogr_get_polygon_points"
        rep.fn(name)
        P = mk("param", f.pos[0])
        for v, conds, where, path, i in returned(p, None, f, policy=Pol(), rep=rep):
            its = [x for x in walk(v) if x.op == "elem" and any(y.op == "mcall" and y.args[1] == "GetGeometryCount"
                                                               for y in walk(x.args[0]))]
            for x in its:
                it = x.args[0]
                if it.op == "call" and it.args[0].op == "ext" and it.args[0].args[0] == "range":
                    a = [y for _, y in it.args[1]]
                    full = (len(a) == 1 and a[0].op == "mcall") or \
                        (len(a) == 2 and is_const(a[0]) and cval(a[0]) == 0 and a[1].op == "mcall")
                    if full:
                        rep.ok("%s reads every ring" % name, where)
                    elif all(y.op in ("const", "mcall", "bin", "un") for y in a):
                        rep.bad("rings-dropped", name, "rings are read over %s only" % it, where)
            for x in walk(v):
                if x.op == "each" and x.args[2]:
                    rep.undec("%s: filtered rings" % name)
            if not its:
                one = [x for x in walk(v) if x.op == "mcall" and x.args[1] == "GetGeometryRef"]
                if one and all(is_const(a) for x in one for _, a in x.args[2]):
                    rep.bad("rings-dropped", name, "only ring %s is read" % one[0], where)
    for n, kind in (("ogr_asPolygon", 1), ("ogr_asMultiPolygon", 2)):
        f = p.func("karta.vector._shp.%s" % n)
        if f is None:
            continue
        name = "_shp.%s" % n
        rep.fn(name)
        C = mk("item", mk("param", f.pos[0]), const("coordinates"))
        try:
            i = Interp(p, Pol())
            paths = i.run(f, None)
        except Exception as e:
            rep.undec("%s: %s" % (name, e))
            continue
        for path in paths:
            if path.kind != "return":
                continue
            pts = [e for e in path.events if e.kind in ("mcall", "call") and e.term.op == "mcall"
                   and e.term.args[1].startswith("AddPoint")]
            if not pts:
                rep.undec("%s: no points written" % name)
                continue
            t = mk("list", *[i.reify(e.term, path.state) for e in pts])
            judge(rep, t, C, 0, "subs-unwritten", name, "rings written", path.where)
            if kind == 2:
                for el in {x for x in walk(t) if x.op == "elem" and x.args[0] is C}:
                    judge(rep, t, el, 0, "subs-unwritten", name, "rings of a part written", path.where)
            skipped(rep, name, "points", pts)
            adds = [e for e in path.events if e.term.op == "mcall" and e.term.args[1].startswith("AddGeometry")]
            skipped(rep, name, "rings", adds)
            if len(adds) < kind:
                rep.bad("subs-unwritten", name, "a ring is built but not added to its polygon", path.where)


def skipped(rep, name, what, events):
    """report elements that no event of a loop handles: the conditions on the element have to cover all cases"""
    groups = {}
    for e in events:
        groups.setdefault(e.loops, []).append(e)
    for g in groups.values():
        clauses = [{c: v for c, v in e.conds if contains_elem(c)} for e in g]
        if {} in clauses:
            continue
        atoms = sorted({c for k in clauses for c in k}, key=fmt)
        if len(atoms) > 8:
            continue
        for bits in itertools.product((True, False), repeat=len(atoms)):
            val = dict(zip(atoms, bits))
            if impossible(val):
                continue
            if not any(all(val[c] == v for c, v in k.items()) for k in clauses):
                rep.bad("subs-unwritten", name, "%s are skipped when %s" % (what, " and ".join(
                    ("" if b else "not ") + fmt(c)[:80] for c, b in val.items())), g[0].where)
                break


def impossible(val):
    """vertices have two or three coordinates"""
    lens = {}
    for c, b in val.items():
        if c.op == "cmp" and c.args[0] in ("==", "<", "<="):
            x, y = c.args[1:]
            if is_const(x) and y.op == "len":
                lens.setdefault(y, []).append((c.args[0], 0, cval(x), b))
            elif is_const(y) and x.op == "len":
                lens.setdefault(x, []).append((c.args[0], 1, cval(y), b))
    ops = {"==": lambda a, b: a == b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b}
    for cs in lens.values():
        if not any(all((ops[o](n, k) if side else ops[o](k, n)) == b for o, side, k, b in cs) for n in (2, 3)):
            return True
    return False


def contains_elem(c):
    return any(x.op == "elem" for x in walk(c))


def masks(p, rep):
    """grid masks by polygons: every sub-polygon is taken out of the mask of its polygon"""
    from .c11 import P11
    c = p.modules["karta.raster.grid"].classes.get("RegularGrid")
    f = c.lookup("mask_by_poly") if c is not None else None
    if f is None:
        return
    name = "RegularGrid.mask_by_poly"
    rep.fn(name)
    for v, conds, where, path, i in returned(p, c, f, policy=P11(), rep=rep):
        terms = [v]
        for e in path.events:
            terms += [e.term] + [z for z in e.extra or () if isinstance(z, T)]
        seen = set()
        nodes = [x for t in terms for x in walk(t, seen)]
        for P in {y.args[0] for x in nodes if is_mask_poly(x) for y in walk(x)
                  if y.op == "mcall" and y.args[1] in ("coords", "vertices") and y.args[0].op != "attr"}:
            S = mk("attr", P, "subs")
            if any(val and mk_empty(cc, S) for cc, val in conds):
                continue
            if any(x.op == "elem" and x.args[0].op == "attr" and x.args[0].args[1] == "subs" for x in walk(P)):
                continue                                # a sub-polygon itself
            if not any(contains(x, S) for x in nodes if x.op in ("fold", "each", "call", "mcall")):
                rep.bad("mask-holes", name, "cells within sub-polygons count as cells of the polygon", where)
                continue
            done = False
            for x in nodes:
                if x.op == "fold" and x.args[0] is S:
                    for cc, val in x.args[-1]:
                        pol = hole_polarity(val)
                        if pol == -1:
                            rep.ok("%s: sub-polygons are taken out of the mask" % name, where)
                            done = True
                        elif pol == 1:
                            rep.bad("mask-holes", name, "the masks of sub-polygons are added to the mask of the polygon",
                                    where)
                            done = True
            if not done:
                rep.undec("%s: use of the sub-polygons" % name)


def is_mask_poly(x):
    return x.op == "call" and x.args[0].op == "func" and x.args[0].args[0].endswith(".mask_poly")


def inverted(t):
    return t.op == "un" and t.args[0] == "~" or t.op == "not" or \
        t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("numpy.logical_not", "numpy.invert")


def hole_polarity(val):
    """-1: the new mask is taken out, 1: it is added, None: not understood"""
    if val.op == "bin" and val.args[0] in ("&", "|", "-", "^", "*", "+"):
        o, a, b = val.args
    elif val.op == "call" and val.args[0].op == "ext" and val.args[0].args[0] in ("numpy.logical_and",
                                                                                 "numpy.logical_or"):
        o = "&" if val.args[0].args[0].endswith("and") else "|"
        q = [t for _, t in val.args[1]]
        if len(q) != 2:
            return None
        a, b = q
    else:
        return None
    la, lb = (any(x.op == "lv" for x in walk(t)) for t in (a, b))
    if la == lb:
        return None
    new, old = (b, a) if la else (a, b)
    if old.op != "lv":
        return None
    if o in ("&", "*"):
        return -1 if inverted(new) else None
    if o == "|":
        return None if inverted(new) else 1
    return None
