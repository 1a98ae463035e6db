"""C05: cached results agree with the present state and the arguments."""
import ast
from ..loader import Program, FuncInfo
from ..interp import Interp, Policy, Overflow
from ..report import Report
from ..terms import mk, walk, contains, T, is_const, cval, NONE

TECHNIQUE = "cache-key dataflow and write/invalidate typestate analysis"
RULE = ("(a) Every path of a caching decorator that returns a stored value must be guarded by equality of (or a "
        "lookup key containing) both the positional and the keyword arguments, every stored entry must record "
        "them and the fresh result, and no two different methods of one class share a cache key. (b) On every "
        "path of every operation that replaces the coordinates, parts or CRS of an existing geometry, the cache "
        "is replaced by an empty one with no cached method called in between, and every spatial index the class "
        "owns is rebuilt from the new coordinates or dropped. (c) Constructors build an index from exactly the "
        "coordinates they store.")
GEOM = "karta.vector.geometry"
STATE = ("_vertices", "_vertex", "crs", "_crs", "subs", "vertices")
INDEXES = ("QuadTree", "RTree")


def geometry_classes(p):
    m = p.modules.get(GEOM)
    return list(m.classes.values()) if m else []


def decorators(p):
    """package decorators on geometry methods -> [(FuncInfo of decorator, [(class, method, key)])]"""
    out = {}
    for c in geometry_classes(p):
        for f in c.methods.values():
            for d in f.node.decorator_list:
                call = d if isinstance(d, ast.Call) else None
                r = p.resolve_expr(c.module, call.func if call else d)
                if isinstance(r, FuncInfo):
                    key = None
                    if call and call.args and isinstance(call.args[0], ast.Constant):
                        key = call.args[0].value
                    elif call and call.keywords and isinstance(call.keywords[0].value, ast.Constant):
                        key = call.keywords[0].value.value
                    out.setdefault(r.qual, (r, []))[1].append((c, f, key))
    return out


def replacement(dec):
    """the innermost function that takes the object and its arguments"""
    best = None
    for n in ast.walk(dec.node):
        if isinstance(n, ast.FunctionDef) and n is not dec.node and n.args.args:
            if n.args.vararg or n.args.kwarg or len(n.args.args) > 1 or n.args.args[0].arg == "self":
                best = n
    return best


def stored(t):
    """does the term read a mapping entry rather than a call result"""
    return any(x.op == "item" or (x.op == "mcall" and x.args[1] in ("get", "setdefault", "pop")) for x in walk(t))


def is_call_of_free(t):
    return t.op == "call" and t.args[0].op in ("undef", "param", "free")


def check_decorator(p, rep, dec):
    node = replacement(dec)
    if node is None:
        rep.undec("%s: no replacement function found" % dec.qual)
        return False
    fi = FuncInfo(dec.module, None, node, outer=dec)
    i = Interp(p)
    try:
        paths = i.run(fi)
    except (Overflow, RecursionError, Exception) as e:
        rep.undec("%s: %s" % (dec.qual, e))
        return False
    need = []
    selfp = mk("param", fi.pos[0])
    for n in fi.pos[1:] + fi.kwonly:
        need.append(mk("param", n))
    if fi.vararg:
        need.append(mk("param", "*" + fi.vararg))
    if fi.kwarg:
        need.append(mk("param", "**" + fi.kwarg))
    caching = False
    for path in paths:
        if path.kind != "return" or path.value is None:
            continue
        v = i.reify(path.value, path.state)
        fromcache = not any(is_call_of_free(x) for x in walk(v)) and (stored(v) or v is NONE)
        if fromcache and contains(v, selfp):
            caching = True
            for w in need:
                if not guarded(w, v, path.conds, selfp):
                    rep.bad("cache-argument", dec.name,
                            "a stored result is returned without comparing %s with the call that produced it"
                            % pname(w), path.where)
                else:
                    rep.ok("%s: stored result returned only for equal %s" % (dec.name, pname(w)), path.where)
        for ev in path.events:
            if ev.kind != "store":
                continue
            key, val, base = ev.extra
            if not contains(ev.term, selfp):
                continue
            if any(is_call_of_free(x) for x in walk(val)) or is_call_of_free(val):
                for w in need:
                    if not (whole(key, w) or whole(val, w)):
                        rep.bad("cache-entry", dec.name, "a result is stored without its %s" % pname(w), ev.where)
                    else:
                        rep.ok("%s: entry records %s" % (dec.name, pname(w)), ev.where)
                for x in walk(val):
                    if is_call_of_free(x):
                        for w in need:
                            if not contains(mk("tuple", *[b for a, b in x.args[1]]), w):
                                rep.bad("cache-forward", dec.name, "the cached function is called without %s"
                                        % pname(w), ev.where)
    return caching


def whole(t, w):
    """w occurs in t as a value of its own (possibly sorted, frozen or turned into a tuple), not via len() or bool()"""
    if t is w:
        return True
    if t.op in ("len", "cmp", "not", "in", "isnone", "bool"):
        return False
    if t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("len", "bool", "id", "type"):
        return False
    if is_call_of_free(t):
        return False
    return any(whole(x, w) for a in t.args for x in ([a] if isinstance(a, T) else
               [y for y in _flat(a)] if isinstance(a, tuple) else []))


def _flat(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in _flat(x):
                yield y


def guarded(w, v, conds, selfp):
    for x in walk(v):
        if x.op == "item" and whole(x.args[1], w):
            return True
        if x.op == "mcall" and x.args[1] in ("get", "pop", "setdefault") and \
                any(whole(b, w) for a, b in x.args[2]):
            return True
    for c, val in conds:
        if val and c.op == "cmp" and c.args[0] in ("==", "is") and contains(c, selfp):
            a, b = c.args[1], c.args[2]
            if (whole(a, w) and contains(b, selfp)) or (whole(b, w) and contains(a, selfp)):
                return True
        if val and c.op == "in" and whole(c.args[0], w) and contains(c.args[1], selfp):
            return True
    return False


def pname(w):
    return {"*": "positional", "**": "keyword"}.get(w.args[0].rstrip("abcdefghijklmnopqrstuvwxyz_"), w.args[0]) + \
        " arguments"


class CachePolicy(Policy):
    max_depth = 3
    max_states = 150

    def __init__(self, cached):
        self.cached = cached

    def inline(self, interp, f, recv, depth):
        if f.module.lang != "py" or f.module.name in ("karta.crs", "karta.geodesy"):
            return False
        return f.name not in self.cached and f.name not in ("vertices", "coords", "vertex", "__getitem__")


def is_empty_dict(t):
    return (t.op == "dict" and not t.args) or \
        (t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("dict", "collections.OrderedDict")
         and not t.args[1])


def copies(t):
    return t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("copy.copy", "copy.deepcopy")


def index_attrs(p, c):
    """attributes of the class (assigned in its methods) that hold a spatial index"""
    out = {}
    for k in c.mro():
        for f in k.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                    fn = n.value.func
                    nm = fn.id if isinstance(fn, ast.Name) else getattr(fn, "attr", None)
                    if nm in INDEXES:
                        for t in n.targets:
                            if isinstance(t, ast.Attribute):
                                out[t.attr] = nm
    return out


def check():
    rep = Report("C05", RULE)
    rep.minimum = 10
    p = Program()
    decs = decorators(p)
    cached = set()
    cacheattr = set()
    for q, (dec, uses) in sorted(decs.items()):
        rep.fn(dec.qual)
        if check_decorator(p, rep, dec):
            cached |= {f.name for _, f, _ in uses}
            keys = {}
            for c, f, key in uses:
                if key is None:
                    continue
                keys.setdefault(key, []).append((c, f))
            for key, us in keys.items():
                for a, (c1, f1) in enumerate(us):
                    for c2, f2 in us[a + 1:]:
                        if f1.name != f2.name and shares_instances(p, c1, c2):
                            rep.bad("cache-key", "%s/%s" % (f1.name, f2.name),
                                    "%s.%s and %s.%s store different results under the one cache key %r"
                                    % (c1.name, f1.name, c2.name, f2.name, key), f2.where)
                        else:
                            rep.ok("key %r of %s.%s and %s.%s" % (key, c1.name, f1.name, c2.name, f2.name))
                rep.ok("cache key %r identifies one operation" % (key,))
    for c in geometry_classes(p):
        idx = index_attrs(p, c)
        seen = set()
        for k in c.mro():
            for f in list(k.methods.values()) + list(k.setters.values()):
                if f.name in seen and f not in k.setters.values():
                    continue
                seen.add(f.name)
                if not f.pos or f.is_static or f.is_classmethod:
                    continue
                rep.fn("%s.%s" % (c.name, f.name))
                i = Interp(p, CachePolicy(cached))
                try:
                    paths = i.run(f, c)
                except (Overflow, RecursionError):
                    rep.undec("%s: trace partition too large" % f.qual)
                    continue
                except Exception as e:
                    rep.undec("%s: %s" % (f.qual, e))
                    continue
                for path in paths:
                    if path.kind == "return":
                        check_path(rep, i, c, f, path, cached, idx)
    return rep


def shares_instances(p, c1, c2):
    if c1.issub(c2) or c2.issub(c1):
        return True
    return any(k.issub(c1) and k.issub(c2) for k in geometry_classes(p))


def check_path(rep, i, c, f, path, cached, idx):
    selfp = mk("param", f.pos[0])
    name = "%s.%s" % (c.name, f.name)
    writes = {}            # object -> [(position, attr, value, where)]
    resets = {}
    uses = {}
    sets = {}
    dels = {}
    for n, ev in enumerate(path.events):
        if ev.kind == "setattr":
            a, v = ev.extra
            obj = ev.term
            if a in STATE and v is not mk("attr", obj, a):
                writes.setdefault(obj, []).append((n, a, v, ev.where))
            if "cache" in a.lower() and is_empty_dict(v):
                resets.setdefault(obj, []).append((n, "set"))
            sets.setdefault((obj, a), []).append((n, v, ev.where))
        elif ev.kind in ("store", "aug") and ev.term.op == "attr" and ev.term.args[1] in STATE:
            writes.setdefault(ev.term.args[0], []).append((n, ev.term.args[1], None, ev.where))
        elif ev.kind == "mcall":
            base, m, args = ev.term.args
            if m == "clear" and base.op == "attr" and "cache" in base.args[1].lower():
                resets.setdefault(base.args[0], []).append((n, "clear"))
            if m in cached:
                uses.setdefault(base, []).append(n)
            if m in ("append", "extend", "insert", "pop", "remove", "reverse", "sort", "clear") and \
                    base.op == "attr" and base.args[1] in STATE:
                writes.setdefault(base.args[0], []).append((n, base.args[1], None, ev.where))
        elif ev.kind == "delattr":
            dels.setdefault((ev.term, ev.extra[0]), []).append(n)
    for obj, ws in writes.items():
        fresh = obj is selfp and f.name == "__init__"
        if obj.op not in ("param", "attr", "item", "elem") and not copies(obj):
            continue            # a newly constructed object has nothing cached
        if not fresh:
            rs = resets.get(obj, [])
            last = ws[-1]
            good = [n for n, how in rs if (how == "set" or not copies(obj))
                    and not any(n < u < last[0] for u in uses.get(obj, []))]
            if not good:
                rep.bad("stale-cache", name, "%s.%s is replaced and the cached results of the object are kept"
                        % (obj, last[1]), last[3])
            else:
                rep.ok("%s: cache discarded when %s changes" % (name, last[1]), last[3])
            for a, kind in idx.items():
                if last[1] not in ("_vertices", "vertices", "_vertex"):
                    continue
                absent = any(cnd.op == "hasattr" and cnd.args[0] is obj and cnd.args[1] == a and not v
                             for cnd, v in path.conds)
                rebuilt = [n for n, v, w in sets.get((obj, a), []) if n > last[0]]
                dropped = [n for n in dels.get((obj, a), [])]
                if absent or rebuilt or dropped:
                    rep.ok("%s: %s rebuilt when %s changes" % (name, a, last[1]), last[3])
                else:
                    rep.bad("stale-index", name, "%s.%s is replaced and the spatial index %s is kept"
                            % (obj, last[1], a), last[3])
    # an index is built from the coordinates stored in the same object
    for a, kind in idx.items():
        ss = sets.get((selfp, a))
        if not ss:
            continue
        n, v, where = ss[-1]
        if v.op not in ("new", "call") or not v.args[1]:
            continue
        cur = path.state.attrs.get((selfp, "_vertices"))
        cur = i.reify(cur, path.state) if cur is not None else mk("attr", selfp, "_vertices")
        src = v.args[1][0][1]
        for k2, x in v.args[1]:
            if k2 in ("geometries", "points", "vertices", 0):
                src = x
        if covers(src, cur):
            rep.ok("%s: %s built from the stored coordinates" % (name, a), where)
        elif definite_other(src, cur):
            rep.bad("index-source", name, "%s is built from %s, not from the stored coordinates" % (a, src), where)
        else:
            rep.undec("%s: source of %s not understood" % (name, a))


def covers(src, cur):
    if src is cur or contains(src, cur):
        return not any(x.op == "item" and contains(x.args[0], cur) and x.args[1].op == "slice"
                       and x.args[1] is not mk("slice", NONE, NONE, NONE) for x in walk(src))
    # the parts the object itself yields
    if src.op == "list" and len(src.args) == 1 and src.args[0].op == "each" and cur.op == "attr" and \
            src.args[0].args[0] is cur.args[0] and not src.args[0].args[2]:
        return True
    # the same list comprehension entries, element-wise
    if src.op == "list" and cur.op == "list" and len(src.args) == len(cur.args):
        return True
    return False


def definite_other(src, cur):
    """src is an earlier value of the coordinates, or a slice of them"""
    s = mk("attr", mk("param", "self"), "_vertices")
    if src is s and cur is not s:
        return True
    return any(x.op == "item" and contains(x.args[0], cur) and x.args[1].op == "slice" for x in walk(src))
