"""Rules for the Cython wrappers of the spatial indexes (rtree.pyx, quadtree.pyx)."""
from .interp import Interp, Policy
from .terms import arg, cval, fmt, is_const, item, mk, walk, const

SEARCH = {"rt_search_within": "search_within", "rt_search_overlapping": "search_overlapping", "qt_search_within": "search_within"}
ALLOC = {"rt_new_bbox", "qt_new_bbox", "qt_new_position"} | set(SEARCH)
RELEASE = {"free": 0, "libc.stdlib.free": 0, "qt_free_bbox": 0, "qt_free_position": 0, "pool_destroy": 0, "rt_free": 0}
CONSUME = {"rt_insert": 1, "qt_new_leaf": 1, "qt_new_nonleaf": 0}
RIGHT = {"rt_new_bbox": ("free", "libc.stdlib.free"), "qt_new_bbox": ("free", "libc.stdlib.free", "qt_free_bbox"),
         "qt_new_position": ("free", "libc.stdlib.free", "qt_free_position")}
RIGHT.update({s: ("pool_destroy",) for s in SEARCH})
SIDES = ("xmin", "ymin", "xmax", "ymax")


def fname(t):
    """name of the C function a call term calls"""
    if getattr(t, "op", None) != "call":
        return None
    f = t.args[0]
    if getattr(f, "op", None) in ("undef", "ext", "global", "builtin"):
        return f.args[-1] if isinstance(f.args[-1], str) else None
    return f if isinstance(f, str) else fmt(f)


def parg(t, i):
    return arg(t, i)


class Pol(Policy):
    max_states = 4000

    def inline(self, interp, f, recv, depth):
        return f.module.name.endswith(("rtree", "quadtree")) and f.name not in ("__init__", "__cinit__")


def classes(p):
    for m in p.modules.values():
        if m.name in ("karta.vector.rtree", "karta.vector.quadtree"):
            for c in m.classes.values():
                if c.name in ("RTree", "QuadTree"):
                    yield c


def paths(p, c, f):
    it = Interp(p, Pol())
    return it, list(it.run(f, c))


def fields(path, box, upto):
    out = {}
    for e in path.events[:upto]:
        if e.kind == "setattr" and e.term is box and e.extra[0] in SIDES:
            out[e.extra[0]] = e.extra[1]
    return out


def number(t, src, n, conds=()):
    """integer value of a key term when the sequence src has n elements"""
    if is_const(t):
        return cval(t) if isinstance(cval(t), int) else None
    if t.op == "len" and t.args[0] is src:
        return n
    if t.op in ("bin",) and len(t.args) == 3:
        a, b = number(t.args[1], src, n), number(t.args[2], src, n)
        if a is None or b is None:
            return None
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "//": lambda: a // b if b else None,
                "%": lambda: a % b if b else None}.get(t.args[0], lambda: None)()
    if t.op == "un" and t.args[0] == "-":
        a = number(t.args[1], src, n)
        return None if a is None else -a
    if t.op == "call" and fname(t) == "int":
        return number(parg(t, 0), src, n)
    return None


def picks(v, n):
    """(source, index) of an element of a sequence of n numbers"""
    while getattr(v, "op", None) == "call" and fname(v) in ("float", "__cast__"):
        v = parg(v, 1 if fname(v) == "__cast__" else 0)
    if getattr(v, "op", None) != "item":
        return None
    src, key = v.args[0], v.args[1]
    k = number(key, src, n)
    if k is None:
        return None
    return src, k % n


def calls(path, name):
    return [(i, e) for i, e in enumerate(path.events) if e.kind == "call" and fname(e.term) == name]


def lengths(path, src):
    out = []
    for n in (4, 6):
        ok = True
        for c, truth in path.conds:
            if c.op == "cmp" and c.args[0] == "==":
                for a, b in (c.args[1:3], c.args[1:3][::-1]):
                    if a.op == "len" and a.args[0] is src and is_const(b):
                        ok &= (cval(b) == n) == truth
        if ok:
            out.append(n)
    return out


def box_rule(rep, path, where, got, expect, what):
    """got: value terms of xmin, ymin, xmax, ymax; expect(n): their positions"""
    probe = None
    for v in got.values():
        r = picks(v, 4) or picks(v, 6)
        if r:
            probe = r[0]
    if probe is None:
        rep.undec("%s: %s" % (where, what))
        return None
    for n in lengths(path, probe):
        for side, k in zip(SIDES, expect(n)):
            v = got.get(side)
            if v is None:
                rep.bad("box", "%s %s" % (where, side), "%s: %s of the box is never set" % (what, side), where)
                continue
            r = picks(v, n)
            if r is None:
                rep.undec("%s: %s of %s is %s" % (where, side, what, fmt(v)[:80]))
            elif r[0] is not probe or r[1] != k:
                rep.bad("box", "%s %s" % (where, side),
                        "%s: %s is element %d instead of element %d of a bounding box of %d numbers" % (what, side, r[1], k, n), where)
            else:
                rep.ok("%s of %s" % (side, what), where)
    return probe


def results(p, rep):
    """what the wrappers insert and return"""
    for c in classes(p):
        for name, f in sorted(c.methods.items()):
            where = f.qual
            it, ps = paths(p, c, f)
            rep.fn(where)
            for path in ps:
                for api, expected in SEARCH.items():
                    for i, e in calls(path, api):
                        search(rep, it, path, i, e, c, f, api, expected, where)
                for i, e in calls(path, "rt_insert"):
                    rt_insert(rep, path, i, e, where)
                for i, e in calls(path, "qt_insert"):
                    qt_insert(rep, it, path, i, e, where)


def search(rep, it, path, i, e, c, f, api, expected, where):
    if f.name in SEARCH.values() and f.name != expected:
        rep.bad("search", "%s calls %s" % (where, api), "%s runs %s" % (f.name, api), where)
    root, box = parg(e.term, 0), parg(e.term, 1)
    if fmt(root) == "self.root":
        rep.ok("searches from the root", where)
    else:
        rep.undec("%s: root of the search is %s" % (where, fmt(root)[:60]))
    params = [mk("param", q) for q in f.pos[1:]]
    if fname(box) == "qt_new_bbox":
        for k, side in enumerate(SIDES):
            v = parg(box, k)
            if v is None or v.op != "param" or len(f.pos) < 5:
                rep.undec("%s: %s of the search box" % (where, side))
            elif v.args[0] != f.pos[1 + k]:
                rep.bad("box", "%s %s" % (where, side), "the search box's %s is the argument %s" % (side, v.args[0]), where)
            else:
                rep.ok("%s of the search box" % side, where)
    else:
        box_rule(rep, path, where, fields(path, box, i), lambda n: (0, 1, 2, 3), "the search box")
    if api.startswith("rt_"):
        lim = parg(e.term, 2)
        if lim is not None and lim.op == "param" and lim.args[0] == "max_results":
            rep.ok("the limit is handed on", where)
        elif lim is not None and is_const(lim):
            rep.bad("search", where + " max_results", "the limit handed to %s is %s" % (api, fmt(lim)), where)
        else:
            rep.undec("%s: limit %s" % (where, fmt(lim)[:60] if lim is not None else None))
    if path.kind != "return" or path.value is None:
        return
    v = it.reify(path.value, path.state)
    seen = list(walk(v))
    pops = [t for t in seen if fname(t) in ("pool_pop", "pool_get") and parg(t, 0) is e.term]
    if not pops:
        if v.op == "list" and not any(t.op == "unknown" for t in seen):
            rep.bad("results", where, "the results of %s are not returned" % api, where)
        else:
            rep.undec("%s: results" % where)
        return
    eachs = [t for t in seen if t.op == "each" and any(x in pops for x in walk(t.args[3]))]
    plain = [t for t in eachs if not t.args[2] and t.args[3].op == "item" and fname(t.args[3].args[0]) == "__cast__" and
             is_const(t.args[3].args[1]) and cval(t.args[3].args[1]) == 0]
    if plain:
        rep.ok("every result is returned", where)
    elif len([t for t in eachs if t.args[3].op != "star"]) == 1 and \
            all(t.args[2] for t in eachs if t.args[3].op != "star"):
        rep.bad("results", where + " condition", "results of %s are returned only under a condition" % api, where)
    else:
        rep.undec("%s: form of the results" % where)
    for t in eachs:
        w = t.args[0]
        if getattr(w, "op", None) == "while":
            for cnd, truth in w.args[0]:
                if cnd.op == "cmp" and cnd.args[0] == "==" and not truth:
                    k = [x for x in cnd.args[1:3] if is_const(x)]
                    if k and any(x.op == "attr" and x.args[0] is e.term and x.args[1] == "count" for x in cnd.args[1:3]):
                        if cval(k[0]) != 0:
                            rep.bad("results", where + " loop", "the last %s results are never returned" % cval(k[0]), where)
                        else:
                            rep.ok("results are drained", where)
    if api == "qt_search_within":
        dups = [t for t in seen if t.op in ("item", "mcall") and "duplicates" in fmt(t.args[0])]
        if not dups:
            rep.bad("results", where + " duplicates", "points at the place of another point are never reported", where)
            return
        for t in eachs:
            if t.args[3].op == "star":
                x = t.args[3].args[0]
                conds = t.args[2]
                if x.op == "item" and "duplicates" in fmt(x.args[0]):
                    if any(k.op == "in" and k.args[0] is x.args[1] for k in conds if hasattr(k, "op")) or \
                            any(isinstance(k, tuple) and k[0].op == "in" and k[0].args[0] is x.args[1] and k[1] for k in conds):
                        rep.ok("duplicates of every result are returned", where)
                    elif any(isinstance(k, tuple) and k[0].op == "in" and not k[1] for k in conds) or \
                            any(getattr(k, "op", None) == "not" for k in conds):
                        rep.bad("results", where + " duplicates", "duplicates are reported only of points without duplicates", where)


def counter_of(e):
    return e.loops[-1] if e.loops else None


def rt_insert(rep, path, i, e, where):
    box, index = parg(e.term, 1), parg(e.term, 2)
    got = fields(path, box, i)
    src = box_rule(rep, path, where, got, lambda n: (0, 1, n // 2, n // 2 + 1), "the box of an item")
    if src is not None and src.op == "mcall":
        el = [t for t in walk(src) if t.op == "elem"]
        if len(el) == 1:
            want = mk("idx", *el[0].args)
            if index is want:
                rep.ok("items are stored under their position", where)
            elif index is not None and (is_const(index) or
                                        (any(t is want for t in walk(index)) and all(t.op in ("idx", "bin", "const", "un", "param") for t in walk(index) if t is not want))):
                rep.bad("index", where, "item %s is stored under index %s" % (fmt(want), fmt(index)[:60]), where)
            else:
                steps = [a.extra for a in path.events if a.kind == "aug" and index is not None and index.op == "lv" and
                         a.term is index and is_const(a.extra[1])]
                if [x for x in steps if x[0] != "+" or cval(x[1]) != 1]:
                    rep.bad("index", where + " step", "indices advance by %s%s" % (steps[0][0], fmt(steps[0][1])), where)
                else:
                    rep.undec("%s: index of an item is %s" % (where, fmt(index)[:60]))


def qt_insert(rep, it, path, i, e, where):
    for j, b in calls(path, "qt_new_bbox"):
        got = {s: parg(b.term, k) for k, s in enumerate(SIDES)}
        if all(v is not None for v in got.values()):
            box_rule(rep, path, where, got, lambda n: (0, 1, n // 2, n // 2 + 1), "the box of the tree")
    pos = parg(e.term, 1)
    news = [t for t in walk(pos) if fname(t) == "qt_new_position"] if pos is not None else []
    if len(news) != 1:
        rep.undec("%s: position" % where)
        return
    ident, x, y = (parg(news[0], k) for k in range(3))
    for k, (v, c) in enumerate(((x, "x"), (y, "y"))):
        if v is None or v.op != "item" or not is_const(v.args[1]):
            rep.undec("%s: %s of a position" % (where, c))
            continue
        pt = v.args[0]
        if cval(v.args[1]) != k:
            rep.bad("index", "%s %s" % (where, c), "%s of a position is coordinate %s" % (c, cval(v.args[1])), where)
        elif pt.op == "item":
            if pt.args[1] is ident:
                rep.ok("positions are stored under their index", where)
            elif ident.op in ("lv", "idx", "bin") and any(t is pt.args[1] for t in walk(ident)) or is_const(ident):
                rep.bad("index", where, "point %s is stored under %s" % (fmt(pt.args[1])[:40], fmt(ident)[:40]), where)
            else:
                rep.undec("%s: index of a position" % where)
        elif pt.op == "elem":
            want = mk("idx", *pt.args)
            if ident is want:
                rep.ok("positions are stored under their index", where)
            elif any(t is want for t in walk(ident)) or is_const(ident):
                rep.bad("index", where, "a point is stored under %s" % fmt(ident)[:60], where)
            else:
                rep.undec("%s: index of a position" % where)
    if ident.op == "lv":
        steps = [a for a in path.events if a.kind == "aug" and a.term is ident]
        for a in steps:
            if a.extra and a.extra[0] == "+" and is_const(a.extra[1]) and cval(a.extra[1]) == 1:
                rep.ok("indices advance by one", where)
            elif a.extra and is_const(a.extra[1]):
                rep.bad("index", where + " step", "indices advance by %s%s" % (a.extra[0], fmt(a.extra[1])), where)
    # duplicates and the new root
    out = [x for x in path.events if x.kind == "call" and fname(x.term) == "__out__"]
    if out:
        dup = out[0].term
        stores = [x for x in path.events if x.kind == "store" and x.loops and any(t is dup for t in walk(x.extra[0]))]
        swapped = [x for x in path.events if x.kind == "store" and x.extra[0] is ident and
                   any(t is dup for t in walk(it.reify(x.extra[1], path.state)))]
        adds = [x for x in path.events if x.kind == "mcall" and x.loops and any(t is dup for t in walk(x.term))]
        if not stores and path.kind == "return":
            if swapped:
                rep.bad("duplicates", where, "duplicates are filed under the later point, which searches never find", where)
            elif not adds:
                rep.bad("duplicates", where, "points at the place of another point are not recorded", where)
            else:
                rep.undec("%s: duplicates" % where)
        guarded = [x for x in stores if any(c.op == "in" and c.args[0] is dup and not t for c, t in x.conds)]
        if stores and len(guarded) == len(stores) and not adds and path.kind == "return":
            rep.bad("duplicates", where + " further", "only the first duplicate of a point is recorded", where)
        for x in stores:
            v = it.reify(x.extra[1], path.state)
            if any(t is ident for t in walk(v)):
                rep.ok("duplicates are filed under the stored point", where)
            else:
                rep.undec("%s: duplicates are %s" % (where, fmt(v)[:60]))
            for cnd, truth in x.conds:
                if cnd.op == "cmp" and cnd.args[0] == "==" and any(t is dup for t in cnd.args[1:3]):
                    k = [t for t in cnd.args[1:3] if is_const(t) or t.op == "un"]
                    if k and number(k[0], None, 0) == -1:
                        if truth:
                            rep.bad("duplicates", where + " condition", "points are recorded as duplicates exactly if they are none", where)
                        else:
                            rep.ok("only duplicates are recorded", where)
    roots = [x for x in path.events[i:] if x.kind == "setattr" and x.loops and any(t is e.term for t in walk(x.extra[1]))]
    if path.kind == "return":
        if not roots:
            rep.bad("root", where, "the new root that an insertion returns is not kept", where)
        for x in roots:
            for cnd, truth in x.conds:
                if cnd.op == "isnone" and cnd.args[0] is e.term:
                    if truth:
                        rep.bad("root", where + " condition", "the root is replaced exactly if the insertion returns none", where)
                    else:
                        rep.ok("a new root is kept", where)


def memory(p, rep):
    """every block that a wrapper obtains is released or handed over exactly once, after its last use"""
    for c in classes(p):
        for name, f in sorted(c.methods.items()):
            where = f.qual
            it, ps = paths(p, c, f)
            rep.fn(where)
            for path in ps:
                ownership(rep, it, path, where)
        dealloc(p, rep, c)


def ownership(rep, it, path, where):
    ev = path.events
    for term in {e.term: None for e in ev if e.kind == "call" and fname(e.term) in ALLOC}:
        name = fname(term)
        births = [i for i, e in enumerate(ev) if e.kind == "call" and e.term is term]
        ends = []
        for i, e in enumerate(ev):
            if e.kind != "call":
                continue
            fn = fname(e.term)
            if fn in RELEASE and parg(e.term, RELEASE[fn]) is term:
                if fn not in RIGHT[name]:
                    rep.bad("release", "%s %s by %s" % (where, name, fn), "what %s returns is released with %s" % (name, fn), where)
                ends.append((i, "release"))
            elif fn in CONSUME and parg(e.term, CONSUME[fn]) is term:
                ends.append((i, "hand over"))
        stored = [e for e in ev if e.kind in ("setattr", "store") and e.extra[1] is term]
        if path.value is not None and it.reify(path.value, path.state) is term or stored:
            rep.undec("%s: %s is stored" % (where, name))
            continue
        if len(births) > 1:
            if len(ends) != len(births):
                rep.bad("release", "%s %s" % (where, name), "%d blocks of %s, but %d releases" % (len(births), name, len(ends)), where)
            continue
        b = births[0]
        if path.kind == "raise":
            if not [i for i, k in ends if i > b]:
                rep.bad("release", "%s %s exception" % (where, name), "what %s returns is lost when an exception is raised" % name, where)
            continue
        depth = len(ev[b].loops)
        mine = [(i, k) for i, k in ends if i > b and ev[i].loops == ev[b].loops]
        if [i for i, k in ends if i > b and len(ev[i].loops) > depth]:
            rep.bad("release", "%s %s" % (where, name), "what %s returns is released in a loop that it is not obtained in" % name, where)
            continue
        if not mine:
            rep.bad("release", "%s %s" % (where, name), "what %s returns is never released" % name, where)
            continue
        extra = [[x for x in ev[i].conds if x not in ev[b].conds and x not in path.conds] for i, k in mine]
        atoms = list({c: None for x in extra for c, t in x})
        if len(atoms) > 10:
            rep.undec("%s: conditional releases of %s" % (where, name))
            continue
        worst = None
        for bits in range(1 << len(atoms)):
            val = {c: bool(bits >> k & 1) for k, c in enumerate(atoms)}
            n = sum(all(val[c] == t for c, t in x) for x in extra)
            if n != 1:
                worst = n, val
                break
        if worst is not None:
            under = ", ".join("%s%s" % ("" if t else "not ", fmt(c)[:40]) for c, t in worst[1].items())
            rep.bad("release", "%s %s" % (where, name), "what %s returns is %s%s" %
                    (name, "never released" if worst[0] == 0 else "released %d times" % worst[0], " if " + under if under else ""), where)
            continue
        late = False
        for (end, k), x in zip(mine, extra):
            if k == "release":
                for e in ev[end + 1:]:
                    if e.kind in ("call", "mcall", "setattr", "store") and uses(e, term) and not \
                            any((c, not t) in x for c, t in e.conds):
                        late = True
        if late:
            rep.bad("release", "%s %s" % (where, name), "what %s returns is used after its release" % name, where)
        else:
            rep.ok("%s is released once, after its last use" % name, where)
    # the root of an R-tree is owned by the object whenever an exception can leave the constructor
    roots = [(i, e) for i, e in enumerate(ev) if e.kind == "call" and fname(e.term) in ("rt_new_node", "rt_insert")]
    for i, e in roots:
        kept = [x for x in ev[i:] if x.kind == "setattr" and x.extra[0] == "root" and
                any(t is e.term for t in walk(x.extra[1]))]
        if path.kind == "raise" and not kept:
            rep.bad("root", where + " exception", "the nodes made by %s are lost when the constructor raises" % fname(e.term), where)
        elif path.kind == "return" and not kept:
            if fname(e.term) == "rt_insert" or not any(fname(x.term) == "rt_insert" for j, x in roots):
                rep.bad("root", where, "the tree made by %s is not kept" % fname(e.term), where)
        elif kept:
            rep.ok("the tree is kept", where)


def uses(e, term):
    def inside(t):
        # the term itself may live on in values computed from it earlier; a use is a call or an access
        if e.kind in ("call", "mcall"):
            return any(x is term for k, x in t.args[-1])
        return t is term
    return inside(e.term) if hasattr(e.term, "args") and e.term.args else False


def dealloc(p, rep, c):
    f = c.methods.get("__dealloc__")
    want = "rt_free" if c.name == "RTree" else "qt_free_node"
    if f is None:
        rep.bad("release", c.qual + " __dealloc__", "the tree is never released", c.qual)
        return
    it, ps = paths(p, c, f)
    freed = False
    for path in ps:
        got = [e for e in path.events if e.kind == "call" and fname(e.term) == want]
        for e in got:
            a = parg(e.term, 0)
            if fmt(a).startswith("self.root"):
                freed = True
                for cnd, truth in path.conds:
                    if cnd.op == "isnone" and truth:
                        rep.bad("release", f.qual + " null", "%s is called on a tree that does not exist" % want, f.qual)
        if len(got) > 1:
            rep.bad("release", f.qual + " twice", "the tree is released twice", f.qual)
    if freed:
        rep.ok("the tree is released with the object", f.qual)
    elif all(not path.events for path in ps):
        rep.bad("release", f.qual, "the tree is never released", f.qual)
    else:
        rep.undec(f.qual)
