"""C16: equality and hashing of geometries and coordinate systems are consistent."""
import ast

from ..interp import Interp, Policy
from ..loader import Program
from ..report import Report
from ..results import concrete
from ..terms import T, mk, walk, subst, is_const, cval, children, TRUE, FALSE

TECHNIQUE = "aspect analysis of equality paths, hash-equality inclusion over path-wise value terms, guarded-access lint"
RULE = ("On every path on which an equality method can answer true, the answer must include a comparison of each aspect "
        "(whole coordinates, attributes, coordinate system by equality, inner rings, data rows) of both operands with "
        "each other; a hash may be computed only from aspects that the equality compares, converted to hashable values "
        "that do not distinguish equal ones; a class that defines equality defines hashing; an attribute of the other "
        "operand is read only under a guard that turns an unrelated object into inequality.")
S, O = mk("param", "self"), mk("param", "other")
WRAP = ("list", "tuple", "_as_nested_tuples", "_as_nested_lists", "numpy.array", "numpy.asarray", "iter")
PARTIAL = ("len", "set", "frozenset", "sorted", "hash", "sum", "min", "max", "round", "type", "id", "abs", "any", "all",
           "int", "bool", "numpy.round", "numpy.sort", "numpy.sum", "numpy.mean", "numpy.max", "numpy.min")
TOLERANT = ("numpy.allclose", "numpy.isclose", "math.isclose")
EQUALS = ("numpy.equal", "numpy.array_equal", "operator.eq")
TEXT = ("str", "repr", "format")


class Pol(Policy):
    max_depth = 4
    max_states = 3000

    def inline(self, i, f, recv, d):
        if f.module.lang != "py" or f.name.startswith("_as_nested"):
            return False
        if f.module.name == "karta.crs":
            return f.name in ("__eq__", "__hash__", "__ne__") or f.name.startswith("_") and not f.name.startswith("__")
        return f.module.name in ("karta.vector.geometry", "karta.vector.table", "karta.vector.utilities") and \
            not f.is_property


def fname(t):
    f = t.args[0]
    return str(f.args[0]).split(".")[-1] if f.op in ("func", "closure") else str(f.args[0]) if f.op == "ext" else \
        str(f.args[0]) if f.op == "builtin" else None


def cargs(t):
    return [a for k, a in t.args[1]]


def strip(t):
    """remove conversions that keep every value in place"""
    while True:
        if t.op == "call" and len(t.args[1]) == 1 and fname(t) in WRAP:
            t = cargs(t)[0]
        elif t.op in ("each", "gen") and len(t.args) >= 1 and isinstance(t.args[0], T) and t.op == "gen":
            t = t.args[0]
        else:
            return t


def path_of(t, root):
    """attribute path of a term rooted at one operand, None otherwise"""
    names = []
    while t.op == "attr":
        names.append(t.args[1])
        t = t.args[0]
    return ".".join(reversed(names)) if t is root and names else None


class Cmp(object):
    """equalities that must hold for one path to answer true"""
    def __init__(self, me, ot):
        self.me, self.ot = me, ot
        self.whole = {}      # path -> how
        self.partial = {}    # path -> how
        self.opaque = set()
        self.same = False
        self.super_ = False

    def pair(self, a, b, how):
        if a is self.ot or path_root(a) is self.ot:
            a, b = b, a
        sa, sb = strip(a), strip(b)
        pa, pb = path_of(sa, self.me), path_of(sb, self.ot)
        if pa is not None and pa == pb:
            self.whole.setdefault(pa, set()).add(how)
            return
        if sa is self.me and sb is self.ot and how == "is":
            self.same = True
            return
        for x, root in ((sa, self.me), (sb, self.ot)):
            for q, kind in reads(x, root):
                (self.partial.setdefault(q, set()).add(kind) if kind != "opaque" else self.opaque.add(q))
        # mirrored comparison of values derived from the aspects
        if pa != pb and pa and pb:
            self.partial.setdefault(pa, set()).add("compared with %s of the other" % pb)

    def atom(self, t, v=True):
        if t.op == "not":
            return self.atom(t.args[0], not v)
        if t.op == "and" and v:
            for a in t.args:
                self.atom(a)
            return
        if t.op == "or" and not v:
            for a in t.args:
                self.atom(a, False)
            return
        if not v:
            self.opacity(t)
            return
        if t.op == "cmp" and t.args[0] in ("==", "is"):
            a, b = t.args[1], t.args[2]
            # tuples of aspects
            if a.op == b.op and a.op in ("tuple", "list") and len(a.args) == len(b.args):
                for x, y in zip(a.args, b.args):
                    self.pair(x, y, "==")
                return
            self.pair(a, b, t.args[0])
            return
        if t.op in ("is", "=="):
            self.pair(t.args[0], t.args[1], t.op)
            return
        if t.op == "call":
            n = fname(t)
            a = cargs(t)
            if n in ("numpy.all", "all", "bool") and len(a) == 1:
                return self.atom(a[0])
            if n in EQUALS and len(a) == 2:
                return self.pair(a[0], a[1], n)
            if n in TOLERANT:
                for x, root in ((a[0], self.me), (a[1], self.ot), (a[1], self.me), (a[0], self.ot)):
                    q = path_of(strip(x), root)
                    if q:
                        self.partial.setdefault(q, set()).add("a tolerance")
                return
            self.opacity(t)
            return
        if t.op == "mcall" and t.args[1] == "all" and not t.args[2]:
            return self.atom(t.args[0])
        if t.op == "mcall" and t.args[1] == "__eq__" and len(t.args[2]) == 1:
            return self.pair(t.args[0], cargs_m(t)[0], "==")
        self.opacity(t)

    def opacity(self, t):
        if t.op in ("isinstance", "hasattr", "callable", "isnone", "const"):
            return
        for x in walk(t):
            for root in (self.me, self.ot):
                q = path_of(x, root)
                if q:
                    self.opaque.add(q)
                if x.op in ("call", "mcall", "new") and any(a is root for a in children(x)):
                    self.opaque.add("*")
                if x.op in ("elem", "item", "iter") and x.args[0] is root:
                    self.opaque.add("*")


def cargs_m(t):
    return [a for k, a in t.args[2]]


def path_root(t):
    t = strip(t)
    while t.op == "attr":
        t = t.args[0]
    return t


def reads(t, root, how="opaque"):
    """(aspect path, how much of it is looked at)"""
    out = []

    def go(x, how):
        q = path_of(x, root)
        if q:
            out.append((q, how))
            return
        if x.op == "len":
            return go(x.args[0], "only its length")
        if x.op in ("item", "slice"):
            k = x.args[1] if len(x.args) > 1 else None
            full = k is not None and k.op == "slice" and all(a.op == "const" and cval(a) is None for a in k.args)
            if is_const(k) if k is not None else False:
                return go(x.args[0], "only item %r" % (cval(k),))
            if k is not None and k.op == "slice" and not full and all(is_const(a) for a in k.args):
                return go(x.args[0], "only a slice")
            return go(x.args[0], "opaque")
        if x.op == "call":
            n = fname(x)
            if n in WRAP and len(x.args[1]) == 1:
                return go(cargs(x)[0], how)
            if n in PARTIAL:
                for a in cargs(x):
                    go(a, "only %s of it" % n)
                return
        for a in children(x):
            go(a, "opaque")
    go(t, how)
    return out


def true_conjunctions(v, conds):
    """lists of (term, truth) that must hold for the path to answer true"""
    base = list(conds)
    if is_const(v):
        return [base] if cval(v) is not False and cval(v) is not None and cval(v) is not NotImplemented else []
    if v.op in ("ext", "builtin", "global") and "NotImplemented" in str(v.args[0]):
        return []
    out = []

    def dnf(t):
        if t.op == "or":
            r = []
            for a in t.args:
                r += dnf(a)
            return r
        if t.op == "and":
            r = [[]]
            for a in t.args:
                r = [x + y for x in r for y in dnf(a)]
                if len(r) > 200:
                    return [[(t, True)]]
            return r
        if t.op == "ite":
            return [[(t.args[0], True)] + x for x in dnf(t.args[1])] + \
                [[(t.args[0], False)] + x for x in dnf(t.args[2])]
        if is_const(t):
            return [[]] if cval(t) else []
        return [[(t, True)]]
    for d in dnf(v):
        out.append(base + d)
    return out


ASPECT = {"Point": (("_vertex",), ("properties",), ("crs",)),
          "Line": (("_vertices",), ("properties",), ("crs",)),
          "Polygon": (("_vertices",), ("properties",), ("crs",), ("subs",)),
          "Multipoint": (("_vertices",), ("properties",), ("crs",), ("data",)),
          "Multiline": (("_vertices",), ("properties",), ("crs",), ("data",)),
          "Multipolygon": (("_vertices",), ("properties",), ("crs",), ("data",)),
          "ProjectedCRS": (("_proj.srs", "_proj", "project", "get_proj4"), ("_geod.initstring", "_geod")),
          "Table": (("_data",), ("_fields",))}
WHAT = {"_vertex": "coordinates", "_vertices": "coordinates", "properties": "attributes", "crs": "coordinate system",
        "subs": "inner rings", "data": "data rows of the parts", "_proj.srs": "projection", "_geod.initstring": "ellipsoid",
        "_data": "rows", "_fields": "field names"}
RAGGED = ("Multiline", "Multipolygon")


def equality(p, rep, c):
    f = c.lookup("__eq__")
    if f is None:
        if c.name in ASPECT:
            rep.bad("no-equality", c.qual, "%s has no equality method: objects with equal content differ" % c.name, c.qual)
        return None
    rep.fn("%s [%s]" % (f.qual, c.name))
    me, ot = mk("param", f.pos[0]), mk("param", f.pos[1])
    i = Interp(p, Pol())
    compared = None
    opaque = set()
    for path in i.run(f, c):
        if path.kind != "return" or path.value is None:
            continue
        v = i.reify(path.value, path.state)
        for conj in true_conjunctions(v, path.conds):
            if any(t.op == "raises" or str(t.op).startswith("exc") for t, b in conj if b) and not is_const(v):
                pass
            k = Cmp(me, ot)
            for t, b in conj:
                k.atom(t, b)
            if k.same:
                rep.ok("%s: identical operands are equal" % c.name, path.where)
                continue
            judge(rep, c, f, k, path)
            got = set(k.whole)
            compared = got if compared is None else compared & got
            opaque |= k.opaque | loop_reads(None, c, f)
    return None if compared is None else (compared, opaque)


def loop_reads(p, c, f, seen=None):
    """attribute names read inside loops of the method and of the methods it calls"""
    seen = set() if seen is None else seen
    if f in seen:
        return set()
    seen.add(f)
    out = set()
    for x in ast.walk(f.node):
        if isinstance(x, (ast.For, ast.While, ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            out |= {y.attr for y in ast.walk(x) if isinstance(y, ast.Attribute)}
        if isinstance(x, ast.Call):
            n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else ""
            for k in c.mro():
                if n in k.methods and (n.startswith("_") and not n.startswith("__") or n == "__eq__"):
                    out |= loop_reads(p, c, k.methods[n], seen)
    return out


def zipped(f, names):
    """a zip() of one aspect of both operands in a method that never looks at lengths"""
    calls = [x for x in ast.walk(f.node) if isinstance(x, ast.Call)]
    if any(isinstance(x.func, ast.Name) and x.func.id == "len" or isinstance(x.func, ast.Attribute) and
           x.func.attr in ("__len__", "zip_longest", "__eq__") for x in calls):
        return None
    for x in calls:
        if isinstance(x.func, ast.Name) and x.func.id in ("zip", "izip") and len(x.args) == 2:
            at = [y for y in x.args if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and
                  y.attr in names and y.value.id in f.pos[:2]]
            if len(at) == 2 and at[0].value.id != at[1].value.id:
                return x
    return None


def judge(rep, c, f, k, path):
    ev = loop_reads(None, c, f)
    for e in path.events:
        if e.loops:
            for t in [e.term] + [x for x, b in e.conds]:
                for x in walk(t):
                    for root in (k.me, k.ot):
                        q = path_of(x, root)
                        if q:
                            ev.add(q)
    for alts in ASPECT.get(c.name, ()):
        a = alts[0]
        cons = "%s.%s" % (c.name, a)
        done = [q for q in alts if q in k.whole] or \
            [q for q in k.whole if any(q.startswith(x + ".") for x in ()) or q.rstrip("_") == a]
        if done:
            how = set().union(*[k.whole[q] for q in done])
            if how == {"is"} and a in ("crs", "properties", "data", "subs", "_vertices", "_vertex"):
                rep.bad("compared-by-identity", cons, "the %s of the operands are compared by identity: equal ones in "
                        "different objects count as different" % WHAT[a], path.where)
                continue
            if c.name in RAGGED and a == "_vertices" and how & set(EQUALS[:1]):
                rep.bad("ragged-comparison", cons, "parts of different lengths are compared elementwise", path.where)
                continue
            rep.ok("%s: %s compared as a whole" % (c.name, WHAT[a]), path.where)
            continue
        subp = [q for q in list(k.whole) + list(k.partial) if any(q == x or q.startswith(x + ".") for x in alts)]
        opaque = k.opaque | ev
        z = zipped(f, alts) if not subp or not any("length" in w for q in subp for w in k.partial.get(q, ())) else None
        if z is not None:
            rep.bad("compared-in-part", cons, "the %s are compared pairwise up to the shorter of the two: objects of "
                    "different length can compare equal" % WHAT[a], "%s:%d" % (f.module.rel, z.lineno))
            continue
        if "*" in opaque or any(q == x or x.startswith(q + ".") or q.startswith(x + ".") for q in opaque for x in alts):
            rep.undec("%s: comparison of %s not recognised" % (f.qual, a))
            continue
        if subp:
            why = sorted(set().union(*[k.partial.get(q, {"only its %s" % q.split(".")[-1]}) for q in subp]))
            rep.bad("compared-in-part", cons, "two %s objects can compare equal although their %s differ (compared: %s)"
                    % (c.name, WHAT[a], "; ".join(why)), path.where)
        else:
            rep.bad("not-compared", cons, "two %s objects can compare equal although their %s differ: not compared"
                    % (c.name, WHAT[a]), path.where)


# ---------------------------------------------------------------- hashing

def hashing(p, rep, c, compared):
    eqc = next((k for k in c.mro() if "__eq__" in k.methods), None)
    f = c.lookup("__hash__")
    if eqc is None:
        return
    if "__hash__" not in eqc.methods and "__hash__" not in eqc.attrs:
        if c.name != "Table":
            rep.bad("equality-without-hash", eqc.qual, "%s defines equality without hashing: its instances cannot be "
                    "hashed" % eqc.name, eqc.qual)
        return
    if f is None:
        return
    rep.fn("%s [%s]" % (f.qual, c.name))
    me = mk("param", f.pos[0])
    i = Interp(p, Pol())
    for path in i.run(f, c):
        if path.kind != "return" or path.value is None:
            if path.kind == "raise":
                pass
            continue
        v = i.reify(path.value, path.state)
        for t in [v] + [x for x, b in path.conds]:
            atoms(rep, c, f, t, me, compared, path)


def atoms(rep, c, f, t, me, compared, path):
    def go(x, wrap):
        if x is me:
            n = next((w for w in wrap if w in ("id", "hash", "super")), None)
            if "id" in wrap:
                rep.bad("hash-identity", c.qual, "the hash depends on the identity of the object, equality does not",
                        path.where)
            return
        q = path_of(x, me)
        if q:
            return judge_hash(rep, c, f, q, wrap, compared, path)
        if x.op == "call":
            n = fname(x)
            if n == "object.__hash__":
                n = "id"
            for a in cargs(x):
                go(a, wrap + (n or "?",))
            return
        if x.op == "mcall":
            go(x.args[0], wrap + ("." + x.args[1],))
            for k, a in x.args[2]:
                go(a, wrap)
            return
        if x.op in ("tuple", "list", "dict", "set", "each", "gen", "item", "elem", "slice"):
            wrap = wrap + (x.op,)
        if x.op in ("fmt", "fstring", "joined") or (x.op == "bin" and x.args[0] == "%" and is_const(x.args[1])
                                                     and isinstance(cval(x.args[1]), str)):
            wrap = wrap + ("format",)
        for a in children(x):
            go(a, wrap)
    go(t, ())


def judge_hash(rep, c, f, q, wrap, compared, path):
    cons = "%s.%s" % (c.name, q)
    if q in ("_geotype", "__class__", "__class__.__name__"):
        rep.ok("%s: hash uses the type" % c.name, path.where)
        return
    if "id" in wrap:
        rep.bad("hash-identity", cons, "the hash uses the identity of %s, equality its value" % q, path.where)
        return
    if compared is None:
        rep.undec("%s: compared aspects unknown" % f.qual)
        return
    compared, opaque = compared
    if q not in compared and ("*" in opaque or any(q == x or q.startswith(x + ".") or x.startswith(q + ".")
                                                   for x in opaque)):
        rep.undec("%s: comparison of %s not recognised" % (f.qual, q))
        return
    if q.split(".")[0] == "crs" and "crs" in compared and q != "crs":
        if q == "crs.name":
            rep.bad("hash-wider-than-equality", cons, "the hash uses the name of the coordinate system, which equality of "
                    "coordinate systems ignores: equal objects can have different hashes", path.where)
        else:
            rep.undec("%s: hash of %s" % (f.qual, q))
        return
    if not any(q == x or q.startswith(x + ".") for x in compared):
        if any(x.startswith(q + ".") for x in compared):
            rep.bad("hash-wider-than-equality", cons, "the hash uses all of %s, of which equality compares only a part: "
                    "equal objects can have different hashes" % q, path.where)
            return
        rep.bad("hash-wider-than-equality", cons, "the hash uses %s, which equality does not compare: equal objects can "
                "have different hashes" % q, path.where)
        return
    last = wrap[-1] if wrap else None
    if any(w in TEXT or w == "format" for w in wrap) and q.split(".")[0] in ("_vertex", "_vertices"):
        rep.bad("hash-of-text", cons, "the hash uses the text of the coordinates: equal coordinates such as 1 and 1.0 "
                "hash differently", path.where)
        return
    if q in ("properties", "data", "subs", "_vertices") and last == "hash" and c.name in ASPECT:
        rep.bad("unhashable", cons, "hash() is called on %s, which is not hashable" % q, path.where)
        return
    rep.ok("%s: hash uses %s, which equality compares" % (c.name, q), path.where)


# ---------------------------------------------------------------- guards

CATCH = ("AttributeError", "Exception", "BaseException")


def is_guard(node, name):
    for x in ast.walk(node):
        if isinstance(x, ast.Call):
            n = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else ""
            if n in ("isinstance", "hasattr", "type", "issubclass", "callable", "getattr") and x.args and \
                    isinstance(x.args[0], ast.Name) and x.args[0].id == name:
                return True
            if n == "__eq__" and any(isinstance(a, ast.Name) and a.id == name for a in x.args):
                return True
        if isinstance(x, ast.Attribute) and x.attr == "__class__":
            return True
    return False


def guards(p, rep, c, f, name, seen, depth=0):
    """reads of an attribute of `name` with no guard before them"""
    if f in seen or depth > 3:
        return
    seen.add(f)
    node = f.node
    first = [10 ** 9]

    def visit(x, safe):
        if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not node:
            return
        if isinstance(x, ast.Try):
            h = False
            for e in x.handlers:
                names = [e.type] if e.type is not None and not isinstance(e.type, ast.Tuple) else \
                    (e.type.elts if e.type is not None else [])
                if e.type is None or any((n.id if isinstance(n, ast.Name) else getattr(n, "attr", "")) in CATCH
                                         for n in names):
                    h = True
            for s in x.body:
                visit(s, safe or h)
            for s in [y for e in x.handlers for y in e.body] + x.orelse + x.finalbody:
                visit(s, safe or h)
            return
        if isinstance(x, ast.BoolOp):
            s = safe
            for v in x.values:
                visit(v, s)
                s = s or is_guard(v, name)
            return
        if isinstance(x, (ast.If, ast.IfExp)):
            visit(x.test, safe)
            s = safe or is_guard(x.test, name)
            for y in (x.body if isinstance(x.body, list) else [x.body]):
                visit(y, s)
            for y in (x.orelse if isinstance(x.orelse, list) else [x.orelse]):
                visit(y, s)
            if s:
                after[0] = True
            return
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == name:
            if not (safe or after[0]) and not (x.attr.startswith("__") and x.attr.endswith("__")):
                hits.append(x)
        if isinstance(x, ast.Assign) and is_guard(x, name):
            after[0] = True
        if isinstance(x, ast.Call) and not (safe or after[0]):
            for k, a in enumerate(x.args):
                if isinstance(a, ast.Name) and a.id == name:
                    g = None
                    if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and \
                            x.func.value.id == f.pos[0]:
                        g = c.lookup(x.func.attr)
                        off = 0 if g is not None and g.is_static else 1
                    elif isinstance(x.func, ast.Name):
                        g = f.module.funcs.get(x.func.id)
                        off = 0
                    if g is not None and len(g.pos) > k + off:
                        guards(p, rep, c, g, g.pos[k + off], seen, depth + 1)
        for y in ast.iter_child_nodes(x):
            visit(y, safe)
    hits = []
    after = [False]
    for s in node.body:
        visit(s, False)
    if hits:
        rep.bad("unguarded-operand", "%s.%s" % (f.qual, hits[0].attr), "comparison reads .%s of the other operand "
                "without handling objects that have no such attribute: comparing with an unrelated object fails"
                % hits[0].attr, "%s:%d" % (f.module.rel, hits[0].lineno))
    else:
        rep.ok("%s: operands guarded" % f.qual)


def elementwise(p, rep, c, f):
    """numpy.equal on coordinate sequences raises for operands of different shape"""
    def inside(x, safe):
        if isinstance(x, ast.Try):
            h = any(e.type is None or any(n in ast.dump(e.type) for n in ("ValueError", "'Exception'"))
                    for e in x.handlers)
            for s in x.body:
                inside(s, safe or h)
            return
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "equal" and not safe:
            rep.bad("shape-error", f.qual, "elementwise comparison of coordinates of different shape (different rank) "
                    "raises instead of answering", "%s:%d" % (f.module.rel, x.lineno))
        for y in ast.iter_child_nodes(x):
            inside(y, safe)
    for s in f.node.body:
        inside(s, False)


def negation(p, rep, c):
    f = c.lookup("__ne__")
    if f is None:
        return
    rep.fn(f.qual)
    i = Interp(p, Pol())
    for path in i.run(f, c):
        if path.kind == "return" and path.value is not None and path.value.op == "un" and path.value.args[0] == "~":
            rep.bad("negation", f.qual, "!= returns the bitwise complement of a truth value, which is always true",
                    path.where)


def check():
    rep = Report("C16", RULE)
    rep.minimum = 10
    rep.assumptions = ["coordinate sequences compare and convert by value (external package picogeojson.CoordString)",
                       "attribute values compare and hash by value",
                       "conversion to nested tuples keeps every coordinate (its definition has no filter)"]
    p = Program()
    cs = concrete(p) + [p.modules[m].classes[n] for m, n in (("karta.crs", "ProjectedCRS"),
                                                            ("karta.vector.table", "Table"))
                        if m in p.modules and n in p.modules[m].classes]
    done = set()
    for c in cs:
        try:
            compared = equality(p, rep, c)
            hashing(p, rep, c, compared)
            negation(p, rep, c)
        except Exception as e:
            rep.undec("%s: %s %s" % (c.qual, type(e).__name__, e))
        for k in c.mro():
            f = k.methods.get("__eq__")
            if f is not None and f not in done and len(f.pos) > 1:
                done.add(f)
                try:
                    if c.name != "Table":
                        guards(p, rep, c, f, f.pos[1], set())
                        elementwise(p, rep, c, f)
                except Exception as e:
                    rep.undec("%s: %s %s" % (f.qual, type(e).__name__, e))
    return rep
