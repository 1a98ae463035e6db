"""C26: attribute tables of shapefiles keep every value in its row and column."""
import ast

from ..interp import Interp
from ..iospec import extname, cargs
from ..loader import Program
from ..report import Report
from ..terms import T, mk, const, is_const, cval, walk, fmt, children
from .c14 import Flow, SHP, READ, last, pairs
from .c15 import strip_order

TECHNIQUE = "row and column provenance of every stored value on path-wise value terms, and evaluation of the type tables and the " \
            "type join over a finite lattice of field types"
RULE = ("Reader: the value under a column's name is that row's value of the same column, converted with the type table, None kept. "
        "Writer: columns are the properties common to all geometries, named uniquely within ten characters and apart from ID; the "
        "type is a join over all geometries that holds every value; each geometry's row stores its value of the property its column "
        "was made for, unrounded; data are flushed on every return.")
ORDER = ["OFTInteger", "OFTInteger64", "OFTReal"]
# what a dBase column of a type can hold, of the classes of values
SAMPLES = [("OFTInteger", 7), ("OFTInteger", 2 ** 31 - 1), ("OFTInteger", -2 ** 31), ("OFTInteger64", 2 ** 31),
           ("OFTInteger64", -2 ** 31 - 1), ("OFTReal", 0.5), ("OFTString", "a"), ("OFTDate", None)]


def oft(t):
    """name of an OGR field type"""
    if t.op in ("attr", "ext", "global"):
        n = str(t.args[-1]).split(".")[-1]
        return n if n.startswith("OFT") else None
    if is_const(t) and isinstance(cval(t), str) and cval(t).startswith("OFT"):
        return cval(t)
    return None


def holds(col, val):
    """a column type that keeps the values of another type"""
    if col == val or col in ("OFTString", "OFTWideString"):
        return True
    return col in ORDER and val in ORDER and ORDER.index(val) <= ORDER.index(col)


class Unknown(Exception):
    pass


class Table(object):
    """evaluates conditions and values of a type table for one class of values"""
    def __init__(self, env):
        self.env = env

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        if is_const(t):
            return cval(t)
        n = oft(t)
        if n is not None:
            return n
        op = t.op
        if op == "isnone":
            return self.ev(t.args[0]) is None
        if op == "cmp":
            a, b = self.ev(t.args[1]), self.ev(t.args[2])
            try:
                return {"==": lambda: a == b, "<": lambda: a < b, "<=": lambda: a <= b}[t.args[0]]()
            except TypeError:
                raise Unknown(fmt(t)[:80])
        if op == "not":
            return not self.ev(t.args[0])
        if op == "and":
            return all(self.ev(a) for a in t.args)
        if op == "or":
            return any(self.ev(a) for a in t.args)
        if op in ("tuple", "list"):
            return tuple(self.ev(a) for a in t.args)
        if op == "set":
            return frozenset(self.ev(a) for a in t.args)
        if op == "in":
            c = self.ev(t.args[1])
            if isinstance(c, (tuple, frozenset)):
                return self.ev(t.args[0]) in c
        if op == "un" and t.args[0] in ("-", "+"):
            v = self.ev(t.args[1])
            return -v if t.args[0] == "-" else v
        if op == "bin" and t.args[0] in ("+", "-", "*", "**", "<<"):
            a, b = self.ev(t.args[1]), self.ev(t.args[2])
            if isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(b) < 2 ** 70:
                return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "**": lambda: a ** b if b < 80 else None,
                        "<<": lambda: a << b}[t.args[0]]()
        if op == "item" and is_const(t.args[1]):
            c = self.ev(t.args[0])
            if isinstance(c, tuple) and isinstance(cval(t.args[1]), int):
                return c[cval(t.args[1])]
        n = extname(t)
        if n in ("set", "frozenset") and len(cargs(t)) <= 1:
            return frozenset(self.ev(cargs(t)[0])) if cargs(t) else frozenset()
        if n in ("tuple", "list") and len(cargs(t)) == 1:
            return tuple(self.ev(cargs(t)[0]))
        if n in ("abs", "max", "min"):
            return {"abs": abs, "max": max, "min": min}[n](*[self.ev(a) for a in cargs(t)])
        if op == "mcall" and t.args[1] in ("issubset", "union", "issuperset", "intersection"):
            a, b = self.ev(t.args[0]), self.ev(t.args[2][0][1])
            if isinstance(a, frozenset):
                return getattr(a, t.args[1])(b)
        if op == "isinstance" and self.env.get("kind") is not None and t.args[0] is self.env.get("subject"):
            gs = t.args[1].args if t.args[1].op == "tuple" else (t.args[1],)
            out = False
            for g in gs:
                nm = fmt(g)
                nm = nm if nm in KNOWN else nm.split(".")[-1].rstrip(">").split(", ")[-1]
                if nm not in KNOWN and "numbers." + nm in KNOWN:
                    nm = "numbers." + nm
                if nm not in KNOWN:
                    raise Unknown(fmt(t)[:80])
                out = out or nm in CLASSES[self.env["kind"]]
            return out
        if op == "hasattr" and self.env.get("kind") is not None and t.args[0] is self.env.get("subject") and \
                t.args[1] == "dtype" or op == "hasattr" and t.args[1] is const("dtype"):
            return self.env["kind"].startswith("numpy")
        raise Unknown(fmt(t)[:80])


CLASSES = {"int": {"int", "numbers.Number", "numbers.Integral", "numbers.Real", "numbers.Rational", "numbers.Complex"},
           "float": {"float", "numbers.Number", "numbers.Real", "numbers.Complex"},
           "str": {"str"},
           "date": {"date", "datetime.date"},
           "numpy int": {"numbers.Number", "numbers.Integral", "numbers.Real", "numbers.Rational", "numbers.Complex"},
           "numpy float": {"numbers.Number", "numbers.Real", "numbers.Complex"},
           "numpy float64": {"float", "numbers.Number", "numbers.Real", "numbers.Complex"}}
KNOWN = {"int", "float", "str", "bytes", "list", "tuple", "dict", "bool", "date", "datetime", "time", "datetime.date",
         "datetime.datetime", "datetime.time", "numbers.Number", "numbers.Integral", "numbers.Real", "numbers.Rational",
         "numbers.Complex", "complex"}
WANT = {"int": ("OFTInteger", "OFTInteger64"), "float": ("OFTReal",), "str": ("OFTString", "OFTWideString"),
        "date": ("OFTDate", "OFTString"), "numpy int": ("OFTInteger", "OFTInteger64"), "numpy float": ("OFTReal",),
        "numpy float64": ("OFTReal",)}
DTYPES = {"numpy int": ("int8", "int16", "int32", "int64"), "numpy float": ("float32",), "numpy float64": ("float64",)}


# ---------------------------------------------------------------- types
def value_types(rep, p):
    f = p.modules[SHP].funcs.get("ogr_get_fieldtype")
    if f is None:
        rep.undec("no ogr_get_fieldtype")
        return
    rep.fn("ogr_get_fieldtype")
    where = "%s (%s)" % (f.where, f.qual)
    src = mk("param", f.pos[0])
    it = Interp(p, Flow((SHP,), ("ogr_get_fieldtype",)))
    ps = it.run(f)
    for kind in sorted(CLASSES):
        for dt in DTYPES.get(kind, (None,)):
            lab = "ogr_get_fieldtype %s" % (dt or kind)
            env = {"kind": kind, "subject": src, mk("attr", src, "dtype"): dt}
            got = []
            try:
                for q in ps:
                    if all(Table(env).ev(c) == b for c, b in q.conds):
                        if q.kind == "raise":
                            got.append("refused")
                            continue
                        v = it.reify(q.value, q.state)
                        v = v.args[0] if v.op == "tuple" else mk("item", v, const(0))
                        got.append(Table(env).ev(v))
            except Unknown as e:
                rep.undec("%s: %s" % (lab, e))
                continue
            if len(got) != 1:
                rep.undec(lab)
            elif got[0] in WANT[kind]:
                rep.ok("%s gives %s" % (lab, got[0]), where)
            else:
                rep.bad("types", lab, "%s values are %s" % (dt or kind, "given the type " + str(got[0]) if got[0] != "refused" else
                                                            "refused"), where)


def type_join(rep, p):
    """the type of a column holds the values of all features"""
    f = p.modules[SHP].funcs.get("infer_field_type")
    if f is None:
        rep.undec("no infer_field_type")
        return
    rep.fn("infer_field_type")
    where = "%s (%s)" % (f.where, f.qual)
    it = Interp(p, Flow((SHP,), ("ogr_get_fieldtype",)))
    objs = mk("param", f.pos[0])
    for q in it.run(f):
        if q.kind != "return":
            continue
        v = it.reify(q.value, q.state)
        v = v.args[0] if v.op == "tuple" else v
        if v.op != "fold":
            calls = [x for x in walk(v, set()) if x.op == "call" and last(x) == "ogr_get_fieldtype"]
            first = [x for c in calls for x in walk(c, set()) if x.op == "item" and x.args[0] is objs and is_const(x.args[1])]
            loopless = calls and not any(x.op in ("elem", "lv", "fold", "each", "last") for c in calls for x in walk(c, set()))
            if first and loopless:
                rep.bad("types", "infer_field_type", "the type is that of one feature's value", where)
            elif calls and any(x.op == "elem" and strip_order(x.args[0]) is objs for c in calls for x in walk(c, set())) and v.op == "item":
                rep.bad("types", "infer_field_type", "the type is that of the first value that has one", where)
            else:
                rep.undec("infer_field_type: result")
            continue
        src, depth, lv, init, clauses = v.args
        b = src
        while extname(b) in ("enumerate", "list", "tuple", "iter", "reversed") and cargs(b):
            b = cargs(b)[0]
        if b.op == "item" and b.args[1].op == "slice":
            rep.bad("types", "infer_field_type", "the types of only some features are considered", where)
            continue
        if b is not objs:
            rep.undec("infer_field_type: loop")
            continue
        calls = {x for cs, val in clauses for y in [val] + [c for c, _ in cs] for x in walk(y, set())
                 if x.op == "call" and last(x) == "ogr_get_fieldtype"}
        elem = [x for c in calls for _, a in c.args[1] for x in walk(a, set()) if x.op == "elem" and strip_order(x.args[0]) is objs]
        if not elem:
            if any(x.op == "item" and x.args[0] is objs and is_const(x.args[1]) for c in calls for x in walk(c, set())):
                rep.bad("types", "infer_field_type", "only one feature's value is considered", where)
            else:
                rep.undec("infer_field_type: values")
            continue
        vals = {a for c in calls for _, a in c.args[1] if any(x is elem[0] for x in walk(a, set()))}
        bad = False
        if any(any(c.op == "exc" and w for c, w in bk[3]) for bk in it.breaks if bk[1] is src and bk[2] == depth):
            rep.bad("types", "infer_field_type", "the values of features after one without a type are not considered", where)
            continue
        breaks = [bk for bk in it.breaks if bk[1] is src and bk[2] == depth]
        for prev in (None, "OFTInteger", "OFTInteger64", "OFTReal", "OFTString", "OFTDate"):
            for ty, sample in SAMPLES:
                raw = "OFTInteger" if ty == "OFTInteger64" else ty
                env = {lv: prev}
                for c in calls:
                    a = [x for _, x in c.args[1]]
                    if any(x in vals for x in a):
                        env[c] = (raw, 32)
                    elif any(is_const(x) and isinstance(cval(x), str) for x in a):
                        env[c] = ("OFTString", 180)
                for x in vals:
                    if sample is not None:
                        env[x] = sample
                for x in walk(v, set()):
                    if x.op == "exc":
                        env[x] = False
                try:
                    got = set()
                    for cs, val in clauses:
                        if all(Table(env).ev(c) == w for c, w in cs):
                            got.add(Table(env).ev(val))
                    stop = any(all(Table(env).ev(c) == w for c, w in bk[3]) for bk in breaks)
                except Unknown as e:
                    rep.undec("infer_field_type %s, %s: %s" % (prev, ty, e))
                    continue
                lab = "infer_field_type %s and %s" % (prev, ty if sample is None else "%s %r" % (ty, sample))
                if len(got) != 1:
                    rep.undec(lab)
                    continue
                g = got.pop()
                if stop and g not in ("OFTString", "OFTWideString"):
                    bad = True
                    rep.bad("types", "infer_field_type", "the values of features after one of type %s are not considered" % ty, where)
                    break
                if g is not None and holds(g, ty) and (prev is None or holds(g, prev)):
                    rep.ok("%s: %s" % (lab, g), where)
                else:
                    bad = True
                    rep.bad("types", lab, "a column of type %s after a value of type %s does not hold %s" % (
                        g, prev, ty if sample is None else repr(sample)), where)
            if bad:
                break


def type_names(rep, p):
    """converters of the reader by field type"""
    m = p.modules[SHP]
    tab = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Dict) and any(isinstance(t, ast.Name) and t.id == "FIELDTYPES" for t in n.targets):
            for k, v in zip(n.value.keys, n.value.values):
                if isinstance(k, ast.Attribute):
                    tab[k.attr] = v
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].value, ast.Name) and \
                n.targets[0].value.id == "FIELDTYPES" and isinstance(n.targets[0].slice, ast.Attribute):
            tab[n.targets[0].slice.attr] = n.value
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "update" and \
                isinstance(n.func.value, ast.Name) and n.func.value.id == "FIELDTYPES":
            rep.undec("FIELDTYPES is updated")
            return
    if not tab:
        rep.undec("FIELDTYPES")
        return
    want = {"OFTInteger": ("int",), "OFTInteger64": ("int",), "OFTReal": ("float",), "OFTString": ("str",), "OFTWideString": ("str",)}
    for k in sorted(want):
        where = m.rel
        if k not in tab:
            if k in ("OFTWideString",):
                continue
            rep.bad("types", "FIELDTYPES %s" % k, "columns of type %s cannot be read" % k, where)
        elif isinstance(tab[k], ast.Name) and tab[k].id in ("int", "float", "str", "bool", "bytes", "list", "bin", "repr", "complex"):
            if tab[k].id in want[k]:
                rep.ok("%s columns are read as %s" % (k, tab[k].id), where)
            else:
                rep.bad("types", "FIELDTYPES %s" % k, "columns of type %s are read as %s" % (k, tab[k].id), where)
        else:
            rep.undec("FIELDTYPES %s" % k)
    d = tab.get("OFTDate")
    if d is None:
        return
    where = "%s:%d" % (m.rel, d.lineno)
    if isinstance(d, ast.Attribute) and d.attr == "date":
        rep.bad("types", "FIELDTYPES OFTDate", "dates are given to datetime.date as text, which raises and loses them", where)
        return
    f = m.funcs.get(d.id) if isinstance(d, ast.Name) else None
    if f is None:
        rep.undec("FIELDTYPES OFTDate")
        return
    src = mk("param", f.pos[0])
    it = Interp(p, Flow((SHP,)))
    for q in it.run(f):
        if q.kind != "return":
            continue
        v = it.reify(q.value, q.state)
        a = cargs(v) if v.op in ("call", "mcall") else []
        parts = [x for x in walk(v, set()) if x.op == "mcall" and x.args[1] == "split"]
        if last(v) == "date" and len(a) == 1 and a[0].op == "star" and parts:
            each = [x for x in walk(a[0], set()) if x.op == "each"]
            if len(each) == 1 and each[0].args[0] is parts[0] and extname(each[0].args[3]) == "int":
                rep.ok("dates are read as year, month and day", where)
                continue
            if len(each) == 1 and each[0].args[0] is not parts[0] and (extname(each[0].args[0]) == "reversed" or each[0].args[0].op == "item"):
                rep.bad("types", "FIELDTYPES OFTDate", "year, month and day are reordered or dropped", where)
                continue
        elif last(v) == "date" and len(a) == 3 and parts:
            idx = []
            for x in a:
                while extname(x) == "int" and cargs(x):
                    x = cargs(x)[0]
                if x.op == "elem":
                    break
                idx.append(cval(x.args[1]) if x.op == "item" and is_const(x.args[1]) else None)
            if idx == [0, 1, 2]:
                rep.ok("dates are read as year, month and day", where)
                continue
            if len(idx) == 3 and None not in idx:
                rep.bad("types", "FIELDTYPES OFTDate", "year, month and day are exchanged", where)
                continue
        rep.undec("FIELDTYPES OFTDate: %s" % fmt(v)[:60])


# ---------------------------------------------------------------- reader
def column_of(t):
    """column number minus number of the iteration; a message; None if unknown"""
    if t.op == "elem" and extname(t.args[0]) == "range":
        return shift(t.args[0])
    if t.op == "idx":
        return 0
    if t.op == "bin" and t.args[0] in ("+", "-") and (is_const(t.args[2]) or is_const(t.args[1])):
        k, x = (t.args[2], t.args[1]) if is_const(t.args[2]) else (t.args[1], t.args[2])
        x = column_of(x)
        if x is not None and isinstance(cval(k), int) and (t.args[0] == "+" or k is t.args[2]):
            return x + cval(k) * (1 if t.args[0] == "+" else -1)
    if t.op == "item" and t.args[0].op == "elem" and extname(t.args[0].args[0]) == "enumerate" and t.args[1] is const(0):
        return 0 if len(cargs(t.args[0].args[0])) == 1 else None
    return None


def shift(b):
    """first column of a sequence with one entry per column"""
    if extname(b) in ("list", "tuple", "enumerate", "iter") and len(cargs(b)) == 1:
        return shift(cargs(b)[0])
    if b.op == "list" and len(b.args) == 1 and b.args[0].op == "each" and not b.args[0].args[2]:
        return shift(b.args[0].args[0])
    if b.op == "item" and b.args[1].op == "slice":
        lo, hi, st = b.args[1].args
        x = shift(b.args[0])
        if x is not None and is_const(lo) and is_const(hi) and is_const(st) and cval(hi) is None and cval(st) in (None, 1) and \
                (cval(lo) or 0) >= 0:
            return x + (cval(lo) or 0)
    if extname(b) == "range":
        a = cargs(b)
        if len(a) == 1 and last(a[0]) == "GetFieldCount":
            return 0
        if len(a) == 2 and is_const(a[0]) and last(a[1]) == "GetFieldCount":
            return cval(a[0])
    return None


def positions(t, out):
    """columns the parts of a value belong to"""
    if t.op == "mcall" and t.args[1].startswith("GetField") and t.args[1] != "GetFieldDefn":
        return
    if t.op == "mcall" and t.args[1] in ("GetFieldDefn", "GetFieldDefnRef") and cargs(t):
        out.append(column_of(cargs(t)[0]))
        return
    if t.op == "elem" and any(x.op == "mcall" and x.args[1] == "GetFieldDefn" for x in walk(t, set())):
        out.append(shift(t.args[0]))
        return
    for x in children(t):
        positions(x, out)


def reader(rep, p):
    f = p.modules[SHP].funcs.get("ogr_read_attributes")
    if f is None:
        rep.undec("no ogr_read_attributes")
        return
    rep.fn("ogr_read_attributes")
    where = "%s (%s)" % (f.where, f.qual)
    lyr = mk("param", f.pos[0])
    it = Interp(p, Flow((SHP,), ("_date_from_ogr",)))
    for q in it.run(f):
        if q.kind != "return":
            continue
        v = it.reify(q.value, q.state)
        rows = [x for x in v.args if x.op == "each"] if v.op == "list" else []
        if v.op == "list" and any(x.op == "star" and extname(x.args[0]) == "reversed" for x in v.args) or extname(v) == "reversed":
            rep.bad("rows", "ogr_read_attributes rows", "rows are not in the order of the geometries", where)
            continue
        if not rows:
            rep.undec("ogr_read_attributes: rows")
            continue
        for r in rows:
            src = strip_order(r.args[0])
            if src is None:
                rep.bad("rows", "ogr_read_attributes rows", "rows are not read in order", where)
            elif extname(src) == "range" and len(cargs(src)) == 1 and last(cargs(src)[0]) == "GetFeatureCount" or src is lyr:
                rep.ok("ogr_read_attributes: every row in order", where)
            elif extname(src) == "range" and any(last(x) == "GetFeatureCount" for x in walk(src, set()) if x.op == "mcall"):
                rep.bad("rows", "ogr_read_attributes rows", "rows %s are read" % fmt(src)[:60], where)
            else:
                rep.undec("ogr_read_attributes: rows")
            row = mk("elem", r.args[0], r.args[1])
            kvs = []
            for x in walk(r.args[3], set()):
                if x.op == "kv":
                    kvs.append((x.args[0], x.args[1], None))
                elif x.op == "upd":
                    kvs.append((x.args[1], x.args[2], None))
            guards = {}
            for x in walk(r.args[3], set()):
                if x.op == "fold":
                    for cs, val in x.args[4]:
                        for y in walk(val, set()):
                            if y.op == "kv":
                                guards.setdefault((y.args[0], y.args[1]), []).append(cs)
                elif x.op == "each" and x.args[3].op == "kv":
                    guards.setdefault(tuple(x.args[3].args), []).append(x.args[2])
            n = 0
            for k, val, _ in kvs:
                n += cell(rep, k, val, guards.get((k, val), []), lyr, row, where)
            if not n:
                rep.undec("ogr_read_attributes: values")


def cell(rep, k, val, guards, lyr, row, where):
    """one entry of a row"""
    alts = []

    def split(v, cs):
        if v.op == "phi" and len(v.args) == 3:
            split(v.args[1], cs + ((v.args[0], True),))
            split(v.args[2], cs + ((v.args[0], False),))
        else:
            alts.append((v, cs))
    split(val, ())
    n = 0
    for v, cs in alts:
        if is_const(v):
            continue
        gets = [x for x in walk(v, set()) if x.op == "mcall" and x.args[1].startswith("GetField")]
        if not gets:
            rep.undec("ogr_read_attributes: value %s" % fmt(v)[:60])
            continue
        n += 1
        g = gets[0]
        feat = g.args[0]
        if last(feat) in ("GetFeature", "GetNextFeature"):
            a = cargs(feat)
            if last(feat) == "GetNextFeature" or a and a[0] is row:
                rep.ok("ogr_read_attributes: the row's own feature", where)
            elif a and (is_const(a[0]) or a[0].op == "bin" and any(x is row for x in walk(a[0], set()))):
                rep.bad("rows", "ogr_read_attributes feature", "rows get the values of other features: %s" % fmt(a[0])[-40:], where)
            else:
                rep.undec("ogr_read_attributes: feature")
        elif feat is row:
            rep.ok("ogr_read_attributes: the row's own feature", where)
        else:
            rep.undec("ogr_read_attributes: feature")
        # column of name, value and type
        cols = []
        positions(k, cols)
        positions(v, cols)
        a = cargs(g)
        if a and a[0] is row:
            rep.bad("columns", "ogr_read_attributes column", "the number of the row is used as that of the column", where)
            continue
        byname = a and a[0] is k
        cols += [] if byname else [column_of(a[0]) if a else None]
        if None in cols:
            rep.undec("ogr_read_attributes: column")
        elif any(c != 0 for c in cols) and len(set(cols)) > 1:
            rep.bad("columns", "ogr_read_attributes column", "values, names and types are of different columns", where)
        elif any(c != 0 for c in cols):
            rep.bad("columns", "ogr_read_attributes column", "columns are left out (the first read is %s)" % cols[0], where)
        else:
            rep.ok("ogr_read_attributes: values under their column's name", where)
        # missing values
        conv = v is not g
        if conv:
            conds = list(cs) + [c for gs in guards for c in gs]
            isn = [b for c, b in conds if c.op == "isnone" and c.args[0] is g]
            truth = [b for c, b in conds if c is g]
            isset = [b for c, b in conds if c.op == "mcall" and c.args[1].startswith("IsField")]
            if isn or isset:
                rep.ok("ogr_read_attributes: missing values are not converted", where)
            elif truth:
                rep.bad("columns", "ogr_read_attributes zero", "zeros and empty text are read as missing", where)
            elif not conds or all(c.op == "exc" for c, b in conds):
                rep.bad("columns", "ogr_read_attributes missing", "missing text is converted to 'None'", where)
            else:
                rep.undec("ogr_read_attributes: missing values")
            if v.op == "call" and v.args[0].op in ("ext", "builtin"):
                rep.bad("types", "ogr_read_attributes type", "all columns are converted with %s" % last(v), where)
    return n


# ---------------------------------------------------------------- writer
def writer(rep, p):
    f = p.modules[SHP].funcs.get("ogr_write")
    if f is None:
        rep.undec("no ogr_write")
        return
    rep.fn("ogr_write")
    where = "%s (%s)" % (f.where, f.qual)
    opaque = ("ogr_write_feature", "infer_field_type", "is_3d", "get_geometry_type")
    it = Interp(p, Flow((SHP,), opaque))
    objs = mk("param", "*" + f.vararg) if f.vararg else mk("param", f.pos[1])
    done = set()

    def bad(rule, con, msg):
        if (con, msg) not in done:
            done.add((con, msg))
            rep.bad(rule, con, msg, where)

    def ok(msg):
        if msg not in done:
            done.add(msg)
            rep.ok(msg, where)

    def undec(msg):
        if msg not in done:
            done.add(msg)
            rep.undec(msg)
    for q in it.run(f):
        if q.kind == "raise":
            continue
        evs = [(i, e, last(e.term)) for i, e in enumerate(q.events) if e.kind in ("mcall", "call")]
        # completeness
        flush = [i for i, e, n in evs if n in ("FlushCache", "SyncToDisk", "Destroy", "Release", "Close") and e.kind == "mcall"]
        feats = [i for i, e, n in evs if n == "ogr_write_feature" or n == "CreateFeature"]
        if not feats:
            undec("ogr_write: rows")
            continue
        if flush and max(flush) > max(feats):
            ok("ogr_write: data are flushed before returning")
        elif any(isinstance(n, (ast.Delete, ast.With)) for n in ast.walk(f.node)):
            undec("ogr_write: flush")
        else:
            bad("complete", "ogr_write flush", "the file is not flushed before the function returns")
        defs = [(i, e) for i, e, n in evs if n == "FieldDefn"]
        fixed = [e for i, e in defs if cargs(e.term) and is_const(cargs(e.term)[0])]
        reserved = {str(cval(cargs(e.term)[0])).upper() for e in fixed}
        cols = [(i, e) for i, e in defs if not (cargs(e.term) and is_const(cargs(e.term)[0]))]
        created = [e for i, e, n in evs if n == "CreateField"]
        if not cols:
            undec("ogr_write: columns")
            continue
        for i, e in cols:
            a = cargs(e.term)
            if len(e.loops) != 1 or len(a) < 2:
                undec("ogr_write: column loop")
                continue
            key = key_of(e.loops[0], a[1])
            common(ok, bad, undec, e.loops[0], objs)
            ty = a[1]
            inf = [x for x in walk(ty, set()) if x.op == "call" and last(x) == "infer_field_type"]
            if inf and ty.op == "item" and ty.args[1] is const(0):
                args = dict(inf[0].args[1])
                vals = [x for x in args.values() if isinstance(x, T)]
                if not any(x is objs for x in vals):
                    some = [x for y in vals for x in walk(y, set()) if x.op == "item" and x.args[0] is objs]
                    if some:
                        bad("types", "ogr_write types", "the type of a column is inferred from only some features")
                    else:
                        undec("ogr_write: types")
                else:
                    ok("ogr_write: types are inferred from all features")
                key = [x for x in vals if x is not objs and x.op == "elem"] or [key]
                key = key[0]
            elif oft(ty):
                bad("types", "ogr_write types", "all columns have the type %s" % oft(ty))
            else:
                undec("ogr_write: types")
            name(ok, bad, undec, a[0], key, reserved)
            if not any(cargs(c.term) and cargs(c.term)[0] is e.term for c in created):
                bad("columns", "ogr_write columns", "columns are defined but not added")
            # mapping from column names to properties
            st = mapping_entries(it, q, a[0])
            if st is None:
                undec("ogr_write: column names")
            elif st is False:
                bad("columns", "ogr_write column names", "columns are not recorded with the properties they hold")
            elif key is not None and st is key:
                ok("ogr_write: columns are recorded with the properties they hold")
            elif key is not None:
                bad("columns", "ogr_write column names", "a column is recorded for %s" % fmt(st)[:60])
            # widths
            for j, w, n in evs:
                if n == "SetWidth" and w.term.args[0] is e.term:
                    prec = any(m == "SetPrecision" and x.term.args[0] is e.term for _, x, m in evs)
                    if prec:
                        undec("ogr_write: precision")
                        continue
                    poss = []
                    for t in ("OFTReal",):
                        env = {ty: t, mk("isnone", ty): False}
                        try:
                            rel = [(c, b) for c, b in w.conds if any(x is ty for x in walk(c, set()))]
                            poss.append(all(Table(env).ev(c) == b for c, b in rel))
                        except Unknown:
                            poss.append(None)
                    if poss == [True]:
                        bad("types", "ogr_write widths", "columns of real numbers have a width but no decimals")
                    elif poss == [None]:
                        undec("ogr_write: widths")
                    else:
                        ok("ogr_write: columns of real numbers keep the default decimals")
        for i, e, n in evs:
            if n == "ogr_write_feature":
                a = {k: x for k, x in e.term.args[1]}
                if len(e.loops) != 1:
                    undec("ogr_write: rows")
                    continue
                b = strip_order(e.loops[0])
                if b is objs:
                    ok("ogr_write: one row per geometry, in order")
                elif b is None:
                    bad("rows", "ogr_write rows", "not every geometry is written in order")
                else:
                    undec("ogr_write: rows")
                m = p.modules[SHP].funcs["ogr_write_feature"]
                last_par = m.pos[-1] if "key_mapping" not in m.pos else "key_mapping"
                if last_par not in a and cols:
                    bad("columns", "ogr_write rows mapping", "rows are written without the names of the columns' properties")


def key_of(loop, ty):
    for x in walk(ty, set()):
        if x.op == "elem" and x.args[0] is loop:
            return x
    return None


def common(ok, bad, undec, loop, objs):
    """the properties that get a column"""
    src = loop
    conds = []
    for _ in range(6):
        if src.op == "list" and len(src.args) == 1 and src.args[0].op == "each":
            conds += list(src.args[0].args[2])
            src = src.args[0].args[0]
        elif extname(src) in ("list", "sorted", "tuple", "set", "iter", "enumerate") and cargs(src):
            src = cargs(src)[0]
        else:
            break
    inter = [x for x in walk(src, set()) if x.op in ("mcall", "call") and last(x) in ("intersection", "intersection_update") or
             x.op == "bin" and x.args[0] == "&" or extname(x) == "all"]
    union = [x for x in walk(src, set()) if x.op in ("mcall", "call") and last(x) == "union" or x.op == "bin" and x.args[0] == "|"]
    if union:
        bad("columns", "ogr_write keys", "properties that some geometries do not have get a column")
    elif inter:
        every = any(x.op == "each" and x.args[0] is objs and not x.args[2] for x in walk(src, set()))
        if every:
            ok("ogr_write: the properties all geometries have")
        elif any(x.op == "each" and x.args[0].op == "item" and x.args[0].args[0] is objs for x in walk(src, set())):
            bad("columns", "ogr_write keys", "only some geometries decide which properties get a column")
        else:
            undec("ogr_write: keys")
    elif any(x.op == "item" and x.args[0] is objs and is_const(x.args[1]) for x in walk(src, set())) and \
            not any(x.op in ("elem", "each") and x.args[0] is objs for c, _ in conds for x in walk(c, set())):
        bad("columns", "ogr_write keys", "one geometry decides which properties get a column")
    else:
        undec("ogr_write: keys")
    for c, b in conds:
        if c.op == "mcall" and c.args[1] == "startswith" and is_const(c.args[2][0][1]):
            pre = cval(c.args[2][0][1])
            if b or not str(pre).startswith("_karta"):
                bad("columns", "ogr_write keys filter", "properties %s %r are dropped" % ("without prefix" if b else "starting with", pre))
            else:
                ok("ogr_write: only internal properties are left out")
        else:
            undec("ogr_write: filter %s" % fmt(c)[:60])


def name(ok, bad, undec, t, key, reserved):
    """column names: at most ten characters, different from each other and from reserved names without regard to case"""
    whiles = [x for x in walk(t, set()) if x.op == "fold" and x.args[0].op == "while"]
    init = whiles[0].args[3] if whiles else t
    cuts = [x for x in walk(init, set()) if x.op == "item" and x.args[1].op == "slice"]
    if cuts:
        b = cuts[0].args[1].args
        if is_const(b[1]) and isinstance(cval(b[1]), int):
            if cval(b[1]) > 10:
                bad("columns", "ogr_write name length", "names of up to %d characters are cut by the format" % cval(b[1]))
            elif is_const(b[0]) and cval(b[0]) in (None, 0):
                ok("ogr_write: names have at most ten characters")
            else:
                undec("ogr_write: name length")
        else:
            undec("ogr_write: name length")
    elif key is not None and bare(init) is key:
        bad("columns", "ogr_write name length", "names longer than ten characters are cut by the format")
    else:
        undec("ogr_write: name length")
    if not any(x.op == "mcall" and x.args[1] in ("upper", "lower", "casefold") for x in walk(init, set())):
        if any(x is key for x in walk(init, set())) and all(x.op in ("item", "slice", "call", "ext", "elem", "const", "mcall") for x in [init]):
            bad("columns", "ogr_write name case", "names that differ only in case clash in the format")
    if not whiles:
        if any(x.op in ("idx", "len") for x in walk(t, set())):
            undec("ogr_write: names")
        else:
            bad("columns", "ogr_write names", "properties whose names begin alike share a column")
        return
    tests = whiles[0].args[0].args[0]
    lv = whiles[0].args[2]
    atoms = {c for c, b in tests}
    member = [c for c in atoms if c.op == "in" and c.args[0] is lv]
    if member:
        ok("ogr_write: names differ from the other columns'")
    elif any(any(y is lv for y in walk(c, set())) for c in atoms if c.op not in ("cmp",)):
        undec("ogr_write: names")
    else:
        bad("columns", "ogr_write names", "properties whose names begin alike share a column")
    for r in reserved:
        hit = any(c.op == "cmp" and c.args[0] == "==" and lv in c.args[1:] and
                  any(is_const(x) and str(cval(x)).upper() == r for x in c.args[1:]) for c in atoms)
        hit = hit or any(any(is_const(y) and isinstance(cval(y), str) and cval(y).upper() == r for y in walk(c, set())) for c in atoms)
        if hit:
            ok("ogr_write: names differ from the reserved %s" % r)
        else:
            conts = [c.args[1] for c in member]
            if any(x.op in ("unknown", "param", "lv") for c in conts for x in walk(c, set())):
                undec("ogr_write: reserved names")
            else:
                bad("columns", "ogr_write reserved", "a property named %r shares the reserved column" % r.lower())
    # the replacement is not longer than the name
    for cs, v in whiles[0].args[4]:
        if v is lv:
            continue
        xs = shallow(v, lv)
        if any(x.op == "mcall" and x.args[1] == "format" or x.op == "bin" and x.args[0] in ("+", "%") for x in xs) and lv in xs:
            if any(x.op == "item" and x.args[1].op == "slice" for x in xs):
                ok("ogr_write: replaced names have at most ten characters")
            else:
                bad("columns", "ogr_write name length", "replaced names longer than ten characters are cut by the format")


def shallow(t, stop):
    """subterms, not those of the value a loop starts with"""
    out, todo = [], [t]
    while todo:
        x = todo.pop()
        out.append(x)
        if x is not stop:
            todo.extend(children(x))
    return out


def bare(t):
    """what is left of a name without changes of case and type"""
    while True:
        if extname(t) == "str" and len(cargs(t)) == 1:
            t = cargs(t)[0]
        elif t.op == "mcall" and t.args[1] in ("upper", "lower", "strip", "casefold", "replace", "title"):
            t = t.args[0]
        else:
            return t


def mapping_entries(it, q, nm):
    """property recorded for a column name"""
    found = []
    for x in list(q.state.env.values()):
        v = it.reify(x, q.state) if isinstance(x, T) else None
        if v is None:
            continue
        for y in walk(v, set()):
            if y.op == "kv" and y.args[0] is nm:
                found.append(y.args[1])
            elif y.op == "each" and y.args[3].op == "kv" and y.args[3].args[0] is nm:
                found.append(y.args[3].args[1])
    if found:
        return found[0] if len(set(found)) == 1 else None
    passed = [e for e in q.events if e.kind == "call" and last(e.term) == "ogr_write_feature"]
    for e in passed:
        for _, x in e.term.args[1]:
            for y in walk(x, set()) if isinstance(x, T) else ():
                if y.op == "dict" and not y.args:
                    return False
    return None


def rows(rep, p):
    f = p.modules[SHP].funcs.get("ogr_write_feature")
    if f is None:
        rep.undec("no ogr_write_feature")
        return
    rep.fn("ogr_write_feature")
    where = "%s (%s)" % (f.where, f.qual)
    gi = mk("param", f.pos[1])
    props = mk("item", gi, const("properties"))
    par = "key_mapping" if "key_mapping" in f.pos else f.pos[-1]
    mapping = mk("param", par)
    opaque = tuple(n for n in p.modules[SHP].funcs if n.startswith("ogr_as"))
    it = Interp(p, Flow((SHP,), opaque))
    n = 0
    done = set()
    for q in it.run(f):
        if q.kind == "raise" or any(c.op == "isnone" and c.args[0] is mapping and b for c, b in q.conds):
            continue
        sets = [e for e in q.events if e.kind == "mcall" and last(e.term) in ("SetField", "SetFieldString", "SetFieldDouble", "SetFieldInteger64")]
        vals = [e for e in sets if e.loops]
        if not vals:
            if not any(any(x is props for x in walk(e.term, set())) for e in sets):
                msg = ("rows", "ogr_write_feature values", "properties are not written", where)
                if msg not in done:
                    done.add(msg)
                    rep.bad(*msg)
            continue
        for e in vals:
            key = (e.term, e.conds)
            if key in done:
                continue
            done.add(key)
            n += 1
            lo = e.loops[-1]
            ra = cargs(lo) if extname(lo) == "range" else []
            a = cargs(e.term)
            if len(a) != 2:
                rep.undec("ogr_write_feature: column")
                continue
            if last(e.term) != "SetField":
                rep.undec("ogr_write_feature: %s" % last(e.term))
            col, val = a
            if ra:
                if len(ra) == 2 and is_const(ra[0]) and cval(ra[0]) in (0, 1) and last(ra[1]) == "GetFieldCount" or \
                        len(ra) == 1 and last(ra[0]) == "GetFieldCount":
                    rep.ok("ogr_write_feature: every column of the layer", where)
                elif any(last(x) == "GetFieldCount" for x in walk(lo, set()) if x.op == "mcall"):
                    rep.bad("rows", "ogr_write_feature columns", "the values of some columns are not written: %s" % fmt(lo)[:60], where)
                else:
                    rep.undec("ogr_write_feature: columns")
            elif not any(x is mapping for x in walk(lo, set())):
                rep.undec("ogr_write_feature: columns")
            src = [x for x in walk(val, set()) if x.op == "item" and x.args[0] is props or
                   x.op == "mcall" and x.args[0] is props and x.args[1] == "get"]
            if not src:
                if is_const(val):
                    rep.bad("rows", "ogr_write_feature values", "%s is stored instead of the property" % fmt(val), where)
                else:
                    rep.undec("ogr_write_feature: value")
                continue
            k = src[0].args[1] if src[0].op == "item" else src[0].args[2][0][1]
            if any(x is mapping for x in walk(k, set())):
                looked = k.args[2][0][1] if k.op == "mcall" and k.args[1] == "get" and k.args[0] is mapping else \
                    k.args[1] if k.op == "item" and k.args[0] is mapping else None
                if looked is None:
                    if any(x is mapping for x in walk(lo, set())):
                        rep.ok("ogr_write_feature: the property its column was made for", where)
                    else:
                        rep.undec("ogr_write_feature: property")
                elif looked is col or number(looked) is not None and number(looked) is number(col) or col is number(looked):
                    rep.ok("ogr_write_feature: the property its column was made for", where)
                elif number(looked) is not None and (number(col) is not None or is_const(col) or
                                                     col.op == "bin" and number(looked) in col.args):
                    rep.bad("columns", "ogr_write_feature columns", "a value is stored in another column than its own", where)
                else:
                    rep.undec("ogr_write_feature: property")
            elif any(x is mapping for c, _ in e.conds for x in walk(c, set())):
                rep.ok("ogr_write_feature: the column's name where it has no other property", where)
            elif k is col:
                rep.bad("columns", "ogr_write_feature names", "properties are looked up by the cut names of their columns", where)
            else:
                rep.undec("ogr_write_feature: property")
            convert(rep, val, src[0], e, where)
            skip = [(c, b) for c, b in e.conds if c is src[0] or c.op == "not" and c.args[0] is src[0]]
            if skip and not any(x is not e and x.term.args[0] is e.term.args[0] and (skip[0][0], not skip[0][1]) in x.conds for x in vals):
                rep.bad("rows", "ogr_write_feature zero", "zeros and empty text are not written", where)
    if not n and not rep.violations:
        rep.undec("ogr_write_feature: values")


def number(t):
    """number of the column a name belongs to"""
    for x in walk(t, set()):
        if x.op == "mcall" and x.args[1] in ("GetFieldDefn", "GetFieldDefnRef") and cargs(x):
            return cargs(x)[0]
    return None


def convert(rep, val, src, e, where):
    """what is stored is the property's value"""
    if val is src:
        rep.ok("ogr_write_feature: values are stored as they are", where)
        return
    if val.op == "mcall" and val.args[0] is src and val.args[1] in ("item", "isoformat", "tolist"):
        if val.args[1] == "isoformat":
            g = [b for c, b in e.conds if c.op == "isinstance" and c.args[0] is src and "date" in fmt(c.args[1])]
            if not g:
                rep.undec("ogr_write_feature: dates")
                return
        rep.ok("ogr_write_feature: numpy values and dates are stored as Python's", where)
        return
    n = extname(val)
    if val.op == "attr" and val.args[0] is src and val.args[1] in ("year", "month", "day", "real", "imag", "dtype"):
        rep.bad("rows", "ogr_write_feature values", "only the %s of values is stored" % val.args[1], where)
        return
    if n in ("int", "round", "bool", "len", "abs", "hash") and cargs(val) and cargs(val)[0] is src:
        rep.bad("rows", "ogr_write_feature values", "values are stored through %s" % n, where)
    elif val.op == "item" and val.args[0] is src and val.args[1].op == "slice":
        rep.bad("rows", "ogr_write_feature values", "values are cut", where)
    elif val.op == "mcall" and val.args[0] is src and val.args[1] in ("upper", "lower", "strip", "rstrip", "lstrip", "title"):
        rep.bad("rows", "ogr_write_feature values", "values are changed with %s" % val.args[1], where)
    elif n in ("str", "float"):
        types = [fmt(c.args[1]) for c, b in e.conds if c.op == "isinstance" and c.args[0] is src and b]
        if types:
            rep.undec("ogr_write_feature: %s of %s" % (n, types))
        elif n == "float":
            rep.bad("rows", "ogr_write_feature values", "all values are stored through float", where)
        else:
            rep.undec("ogr_write_feature: text of values")
    else:
        rep.undec("ogr_write_feature: value %s" % val.op)


def check(repo=None):
    rep = Report("C26", RULE)
    rep.minimum = 4
    rep.assumptions = ["OGR's SetField and GetField store and return values a field's type can hold unchanged; the driver refuses "
                       "field types it lacks", "reals are kept to the 15 decimals of dBase columns"]
    p = Program(repo, pyx=False)

    def guard(what, fn, *a):
        try:
            return fn(*a)
        except Exception as e:
            rep.undec("%s: %s %s" % (what, type(e).__name__, str(e)[:80]))
    guard("value types", value_types, rep, p)
    guard("type join", type_join, rep, p)
    guard("type names", type_names, rep, p)
    guard("reader", reader, rep, p)
    guard("pairs", pairs, rep, p, "rows")
    guard("writer", writer, rep, p)
    guard("rows", rows, rep, p)
    return rep
