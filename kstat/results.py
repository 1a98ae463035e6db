"""Values an operation hands back, one per path (returns and yields), for contract checks on results."""
from .interp import Interp, Policy, Overflow
from .terms import T, mk, walk, arg, contains, is_const, cval, NONE

GEOMETRY = "karta.vector.geometry"
CONCRETE = ("Point", "Line", "Polygon", "Multipoint", "Multiline", "Multipolygon")
MULTI = ("Multipoint", "Multiline", "Multipolygon")


class ResultPolicy(Policy):
    max_depth = 4
    max_states = 200
    no_inline = ("vertices", "vertex", "coords", "bbox", "extent", "project", "transform", "forward", "inverse",
                 "distance", "azimuth", "_as_nested_lists", "_as_nested_tuples", "_flatten")

    def inline(self, interp, f, recv, depth):
        if f.module.lang != "py" or f.module.name in ("karta.geodesy", "karta.vector.table", "karta.crs",
                                                      "karta.vector.utilities"):
            return False
        return f.name not in self.no_inline


def concrete(p):
    m = p.modules[GEOMETRY]
    return [m.classes[n] for n in CONCRETE if n in m.classes]


def returned(p, c, f, policy=None, conds=(), kwkeys=None, rep=None):
    """[(value term, conds, where, path, interp)]"""
    i = Interp(p, policy or ResultPolicy())
    try:
        paths = i.run(f, c, conds=conds, kwkeys=kwkeys)
    except Overflow:
        pol = policy or ResultPolicy()
        d = pol.max_depth
        pol.max_depth = 0
        try:
            i = Interp(p, pol)
            paths = i.run(f, c, conds=conds, kwkeys=kwkeys)
        except Exception as e:
            if rep is not None:
                rep.undec("%s: trace partition too large" % f.qual)
            return []
        finally:
            pol.max_depth = d
    except (RecursionError, Exception) as e:
        if rep is not None:
            rep.undec("%s: %s %s" % (f.qual, type(e).__name__, e))
        return []
    out = []
    for x in paths:
        if x.kind == "return" and x.value is not None:
            out.append((i.reify(x.value, x.state), x.conds, x.where, x, i))
        for e in x.events:
            if e.kind == "yield" and e.fn == f.qual:
                out.append((e.term, e.conds, e.where, x, i))
    return out


def results_in(t):
    """outermost package objects inside a returned value (through lists, tuples, generators)"""
    if t.op == "new":
        yield t
        return
    if t.op in ("list", "tuple", "gen", "each", "star", "phi", "ite"):
        for a in t.args:
            if isinstance(a, T):
                if t.op == "each" and a is t.args[0]:
                    continue
                for x in results_in(a):
                    yield x
    elif t.op == "call" and t.args[0].op == "ext" and t.args[0].args[0] in ("list", "tuple", "iter", "reversed"):
        for k, a in t.args[1]:
            for x in results_in(a):
                yield x


def new_class(t):
    ct = t.args[0]
    return ct.args[0].split(".")[-1] if ct.op == "class" else None


def has_rest(t):
    return any(k == "**" for k, _ in t.args[1])


def geo_items(t, selft):
    """does the term consist of items (parts) of the object itself"""
    return any(x.op in ("item", "elem") and x.args[0] is selft for x in walk(t))
