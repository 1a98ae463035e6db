"""C06, Python side: how geometries use their spatial indexes.

An index prunes by planar boxes in the coordinates of the members.  A query that decides membership by something else
(containment in another geometry, a distance) may prune with that geometry's box only where boxes and decision live in one
planar system; and a query must select the same members with the index as without."""
from .results import ResultPolicy, returned
from .terms import T, mk, walk, subst, fmt

SEARCH = ("search_within", "search_overlapping")
CLASSES = ("Multipoint", "Multiline", "Multipolygon")


class P6(ResultPolicy):
    no_inline = ResultPolicy.no_inline + ("contains", "intersects", "bbox", "distance", "_subset")


def flat(conds):
    out = []
    for c, v in conds:
        if c.op == "not":
            c, v = c.args[0], not v
        if c.op == "and" and v or c.op == "or" and not v:
            out += flat([(x, v) for x in (c.args[0] if len(c.args) == 1 and isinstance(c.args[0], tuple) else c.args)])
        else:
            out.append((c, v))
    return out


def crs_of(t):
    return t.args[0] if t.op == "attr" and t.args[1] in ("crs", "_crs") else None


def same_system(conds, a, b):
    for c, v in conds:
        if v and c.op == "cmp" and c.args[0] in ("==", "is") and {crs_of(c.args[1]), crs_of(c.args[2])} == {a, b}:
            return True
    return False


def planar(conds, objs):
    for c, v in conds:
        if c.op == "isinstance" and crs_of(c.args[0]) in objs:
            k = str(c.args[1])
            if v and ("CartesianCRS" in k or "ProjectedCRS" in k) or not v and "GeographicalCRS" in k:
                return True
    return False


def other_crs(conds, objs):
    """conditions about coordinate systems in a form not understood"""
    for c, v in conds:
        if c.op == "cmp" and c.args[0] in ("==", "is") and {crs_of(c.args[1]), crs_of(c.args[2])} == set(objs):
            continue
        if c.op == "isinstance" and crs_of(c.args[0]) in objs:
            continue
        if any(crs_of(x) is not None or x.op in ("call", "mcall") for x in walk(c)):
            return True
    return False


def foreign_boxes(t, selft):
    """parameters whose bounding box the search terms use"""
    out = set()
    for x in walk(t):
        if x.op == "mcall" and x.args[1] in ("bbox", "extent") and x.args[0].op == "param" and x.args[0] is not selft:
            out.add(x.args[0])
    return out


def members(t, selft):
    """t with the member under test replaced by a token"""
    tok = mk("param", "<member>")
    for _ in range(4):
        m = {}
        for x in walk(t):
            if x.op == "elem" and x.args[0] is selft or x.op == "item" and x.args[0] is selft and x.args[1].op in ("elem", "idx"):
                m[x] = tok
            elif x.op == "elem" and (s := sequence(x.args[0])) is not None:
                m[x] = subst(s, {})
        if not m:
            break
        t = subst(t, m)
    return t


def sequence(t):
    while t.op == "call" and t.args[0].op in ("ext", "builtin") and t.args[1] and \
            t.args[0].args[0] in ("numpy.array", "numpy.asarray", "list", "tuple"):
        t = t.args[1][0][1]
    if t.op in ("list", "gen") and len(t.args) == 1 and t.args[0].op == "each" and not t.args[0].args[2]:
        return t.args[0].args[3]
    return None


def selections(v):
    """(index used?, conditions) of the filters in a returned value"""
    out = []
    for x in walk(v):
        if x.op == "each" and x.args[2]:
            ind = any(y.op == "mcall" and y.args[1] in SEARCH for y in walk(x.args[0]))
            out.append((ind, x))
    return out


def check(p, rep):
    g = p.modules["karta.vector.geometry"].classes
    for cn in CLASSES:
        c = g.get(cn)
        if c is None:
            continue
        done = set()
        for k in c.mro():
            for f in getattr(k, "methods", {}).values():
                if f.name in done or not f.pos or f.name.startswith("__"):
                    continue
                done.add(f.name)
                if not (f.name.startswith(("within", "touching")) or uses_index(f)):
                    continue
                one(p, rep, c, f, "%s.%s" % (cn, f.name))


def uses_index(f):
    import ast
    try:
        return any(isinstance(n, ast.Attribute) and n.attr in SEARCH for n in ast.walk(f.node))
    except Exception:
        return False


def one(p, rep, c, f, name):
    rep.fn(name)
    selft = mk("param", f.pos[0])
    sel = {True: set(), False: set()}
    raw = {}
    nofilter = []
    for v, conds, where, path, i in returned(p, c, f, policy=P6(), rep=rep):
        search = {}
        for e in path.events:
            t = e.term
            if e.kind == "mcall" and t.op == "mcall" and t.args[1] in SEARCH:
                search.setdefault(t, (e.where, flat(list(conds) + list(e.conds))))
        for x in walk(v):
            if x.op == "mcall" and x.args[1] in SEARCH:
                search.setdefault(x, (where, flat(list(conds))))
        for t, (w, cc) in search.items():
            if f.name.startswith("touching") and t.args[1] == "search_within":
                rep.bad("index-kind", name, "members that touch are looked up among the boxes lying within the search box", w)
            elif f.name.startswith("touching"):
                rep.ok("%s: boxes that overlap are searched" % name, w)
            if f.name == "within_bbox":
                if t.args[1] == "search_overlapping" and not any(selections(v)):
                    rep.bad("index-kind", name, "members that only overlap the box are returned", w)
                else:
                    rep.ok("%s: members within the box are searched" % name, w)
            args = mk("tuple", *[a for _, a in t.args[2]])
            for P in foreign_boxes(args, selft):
                a, b = same_system(cc, P, selft), planar(cc, {P, selft})
                if a and b:
                    rep.ok("%s: the box of %s prunes within one planar system" % (name, fmt(P)), w)
                elif other_crs(cc, {P, selft}):
                    rep.undec("%s: conditions of the index search" % name)
                else:
                    rep.bad("index-frame", name, "the index is searched with the box of %s %s, although membership is decided "
                            "in the system of %s: members are missed" % (
                                fmt(P), "in a geographical system" if a else "whose system may differ", fmt(P)), w)
        for ind, x in selections(v):
            if not (ind or any(y.op == "elem" and y.args[0] is selft or y is selft for y in walk(x.args[0]))):
                continue
            key = frozenset((members(q, selft), val) if isinstance(q, T) else q
                            for q, val in [(a, b) for a, b in flat(x.args[2])])
            sel[ind].add(key)
            raw[key] = where
        if f.name == "within_bbox":
            box(rep, name, v, selft, f, where)
    for a in sel[True]:
        if a in sel[False]:
            rep.ok("%s: the same members with and without the index" % name, raw[a])
            continue
        for b in sel[False]:
            if b in sel[True]:
                continue
            if len(a) == len(b) == 1:
                (x, vx), (y, vy) = list(a)[0], list(b)[0]
                if x is y and vx != vy:
                    rep.bad("index-predicate", name, "members are selected by opposite conditions with and without the index",
                            raw[a])
                elif x.op == y.op == "cmp" and {x.args[1], x.args[2]} == {y.args[1], y.args[2]}:
                    rep.bad("index-predicate", name, "with the index members are selected by %s, without it by %s"
                            % (show(x, vx), show(y, vy)), raw[a])
                else:
                    rep.undec("%s: selections with and without the index" % name)


def show(c, v):
    s = fmt(c)[:80]
    return s if v else "not " + s


def box(rep, name, v, selft, f, where):
    """the search without an index is the open box of the quadtree"""
    B = mk("param", f.pos[1]) if len(f.pos) > 1 else None
    for ind, x in selections(v):
        if ind or B is None:
            continue
        got = {}
        for c, val in flat(x.args[2]):
            if c.op != "cmp" or c.args[0] not in ("<", "<="):
                got = None
                break
            o, a, b = c.args
            if not val:
                o, a, b = {"<": "<=", "<=": "<"}[o], b, a
            ax, i, side = side_of(a, b, B)
            if ax is None:
                got = None
                break
            got[(ax, i, side)] = o
        if got is None:
            rep.undec("%s: conditions of the box" % name)
            continue
        want = {("x", 0, "lo"), ("y", 1, "lo"), ("x", 2, "hi"), ("y", 3, "hi")}
        if set(got) != want:
            rep.bad("box-sides", name, "without an index the box is tested by %s instead of xmin, ymin, xmax and ymax"
                    % ", ".join(sorted("%s %s bbox[%s]" % (a, ">" if s == "lo" else "<", i) for a, i, s in got)), where)
        elif set(got.values()) == {"<"}:
            rep.ok("%s: open box without an index" % name, where)
        else:
            rep.bad("box-sides", name, "without an index members on the edge of the box count, with one they do not", where)


def side_of(a, b, B):
    from .terms import is_const, cval
    for lo, hi in ((a, b), (b, a)):
        if lo.op == "item" and lo.args[0] is B and is_const(lo.args[1]) and hi.op == "attr" and hi.args[1] in ("x", "y"):
            return hi.args[1], cval(lo.args[1]), "lo" if lo is a else "hi"
    return None, None, None
