"""C10: ASCII grids are written and read with one header and row convention."""
import re

from ..interp import Interp, Policy
from ..iospec import Flips, extname, cargs, same, text_of
from ..loader import Program
from ..poly import Norm, ratom, rconst
from ..report import Report
from ..terms import T, mk, const, is_const, cval, walk

TECHNIQUE = "path-wise value terms of the writer's output and the reader's result compared with the format's conventions"
RULE = ("Writer: on every path that writes, the header lines are the format's (NCOLS = second dimension, NROWS = first, "
        "XLL/YLL of the named reference as a rational function of the transform, CELLSIZE, NODATA_VALUE), precede the "
        "data, the values stored for missing cells equal the NODATA_VALUE, rows are written reversed exactly once, and "
        "the path has excluded dx != dy, non-positive cells and skew. Reader: every header key the writer uses is "
        "recognised and compared case-insensitively, the transform is the header's (centre references shifted by half a "
        "cell), rows are reversed exactly once, and values equal to the header's nodata (or -9999 without one) become NaN.")
ZERO = {"xllcenter", "yllcenter", "xllcorner", "yllcorner", "nodata_value"}
KEYS = {"ncols", "nrows", "xllcenter", "yllcenter", "xllcorner", "yllcorner", "cellsize", "nodata_value"}
REQUIRED = {"ncols", "nrows", "cellsize"}


class Flow(Policy):
    max_states = 4000
    max_depth = 5

    def __init__(self, modules):
        self.modules = modules

    def inline(self, i, f, recv, d):
        if f.name in ("__getitem__", "__init__", "data_mask_full", "data_mask", "values"):
            return False
        return f.module.name in self.modules


def transform_atoms(t):
    """elements of the grid's transform as named atoms"""
    if t.op == "item" and is_const(t.args[1]) and isinstance(cval(t.args[1]), int):
        b = t.args[0]
        if b.op == "attr" and b.args[1] in ("_transform", "transform"):
            n = ("x0", "y0", "dx", "dy", "sx", "sy")
            k = cval(t.args[1])
            if -6 <= k < 6:
                return n[k]
    return None


def is_self(t):
    return t is mk("param", "self")


def nonzero_skew(conds):
    """facts established on a path: equalities of transform elements"""
    eq, pos, none = set(), False, set()
    N = Norm(transform_atoms)
    for t, b in conds:
        u, v = t, b
        while u.op == "not":
            u, v = u.args[0], not v
        if u.op == "cmp":
            o, x, y = u.args
            d = N(x) - N(y)
            if o == "==" and v or o == "!=" and not v:
                eq.add(repr(sorted(d.n.items(), key=str)))
                eq.add(repr(sorted((-d).n.items(), key=str)))
            dx, dy = ratom("dx"), ratom("dy")
            for e in (dx, dy):
                if o == "<=" and not v and same(N(x) - N(y), e) or o == "<" and v and same(N(y) - N(x), e):
                    pos = True
    return eq, pos


def has(eq, r):
    return repr(sorted(r.n.items(), key=str)) in eq


def writer(rep, p, f, cls):
    con = f.qual.replace("karta.raster.grid.", "")
    where = "%s (%s)" % (f.where, f.qual)
    rep.fn(con)
    paths = [q for q in Interp(p, Flow({"karta.raster.grid"})).run(f, cls)]
    keys = set()
    refs = set()
    for q in paths:
        if q.kind != "return":
            continue
        w = [e for e in q.events if e.kind == "mcall" and e.term.args[1] in ("write", "writelines") and e.term.args[2]]
        if not w:
            continue
        eq, pos = nonzero_skew(q.conds)
        x0, y0, dx, dy, sx, sy = [ratom(n) for n in ("x0", "y0", "dx", "dy", "sx", "sy")]
        if not has(eq, dx - dy):
            rep.bad("not-refused", con + " cells", "grids with dx != dy are written", where)
        if not pos:
            rep.bad("not-refused", con + " sign", "grids with negative cell sizes are written", where)
        for n, s in (("sx", sx), ("sy", sy)):
            if not has(eq, s):
                rep.bad("not-refused", con + " " + n, "grids with skew %s are written" % n, where)
        rep.ok("%s: transforms the format cannot express are refused" % con, where)
        zero = {"dy": dx, "sx": rconst(0), "sy": rconst(0)}

        def atom(t):
            n = transform_atoms(t)
            if n in zero:
                return zero[n]
            return n
        N = Norm(atom)
        header, data, late = {}, None, False
        for e in w:
            a = e.term.args[2][0][1]
            if e.term.args[1] == "writelines" or a.op in ("each",):
                if a.op in ("list", "tuple") and a.args and not any(x.op in ("each", "star") for x in a.args):
                    for x in a.args:
                        late |= take(rep, con, x, header, data, where)
                    continue
                data = a
                continue
            s, vals = text_of(a)
            if s is None:
                if a.op == "mcall" and a.args[1] == "join" and any(x.op == "each" for x in walk(a, set())):
                    data = a.args[2][0][1]
                    continue
                els = [x for x in walk(a, set()) if x.op == "elem"]
                if els:
                    data = els[0].args[0]
                    continue
                rep.undec("%s: a written text" % con)
                continue
            if any(x.op in ("elem", "each") for v in vals for x in walk(v, set())) and not re.match("^[A-Za-z]", s):
                els = [x for v in vals for x in walk(v, set()) if x.op == "elem"]
                data = els[0].args[0] if els else None
                continue
            if data is not None:
                late = True
            take(rep, con, a, header, data, where)
        if late:
            rep.bad("header", con, "header lines follow the data", where)
        if not header:
            rep.undec("%s: no header lines recognised" % con)
            continue
        keys |= set(header)
        for k in sorted(header):
            if k not in KEYS:
                rep.bad("header", "%s %s" % (con, k), "%s is not a key of the format" % k.upper(), where)
        for k in sorted(REQUIRED | {"nodata_value"}):
            if k not in header:
                rep.bad("header", "%s %s" % (con, k), "%s is not written" % k.upper(), where)
        ref = [k for k in ("corner", "center") if "xll" + k in header or "yll" + k in header]
        refs |= set(ref)
        if not ref:
            rep.bad("header", con + " reference", "no reference position is written", where)
        for r in ref:
            for ax, o in (("x", x0), ("y", y0)):
                k = "%sll%s" % (ax, r)
                if k not in header:
                    rep.bad("header", "%s %s" % (con, k), "%s is not written" % k.upper(), where)
                    continue
                want = o if r == "corner" else o + dx / rconst(2)
                value(rep, con, k, N, header[k], want, where)
        if "cellsize" in header:
            value(rep, con, "cellsize", N, header["cellsize"], dx, where)
        for k, i in (("ncols", 1), ("nrows", 0)):
            if k in header:
                dim = dimension(header[k])
                if dim is None:
                    rep.undec("%s: %s" % (con, k.upper()))
                elif dim == i:
                    rep.ok("%s: %s is dimension %d" % (con, k.upper(), i), where)
                else:
                    rep.bad("header", "%s %s" % (con, k), "%s is dimension %d of the grid" % (k.upper(), dim), where)
        # the reference the caller asks for
        asked = [cval([x for x in t.args[1:] if is_const(x)][0]) for t, b in q.conds
                 if b and t.op == "cmp" and t.args[0] == "==" and mk("param", "reference") in t.args
                 and any(is_const(x) for x in t.args[1:])]
        if asked and ref and asked[-1] in ("corner", "center") and asked[-1] not in ref:
            rep.bad("header", con + " reference", "%s reference is written when %s is asked for" % (ref[0], asked[-1]), where)
        rows(rep, con, data, header.get("nodata_value"), where)
    return keys


def take(rep, con, a, header, data, where):
    s, vals = text_of(a)
    if s is None:
        rep.undec("%s: a written text" % con)
        return False
    for line in s.split("\n"):
        m = re.match("^\\s*([A-Za-z_]+)\\s+(\0(\\d+)\0|\\S+)\\s*$", line)
        if m:
            header[m.group(1).lower()] = vals[int(m.group(3))] if m.group(3) is not None else const(m.group(2))
        elif line.strip():
            rep.undec("%s: header line %r" % (con, line[:30]))
    return data is not None


def value(rep, con, k, N, t, want, where):
    if t.op == "call" and extname(t) in ("str", "repr", "float"):
        t = cargs(t)[0]
    r = N(t)
    if same(r, want):
        rep.ok("%s: %s is the grid's" % (con, k.upper()), where)
        return
    inv = {a: x for x, a in N.keys.items()}
    if any(a in inv for poly in (r.n, r.d) for mono in poly for a, _ in mono):
        rep.undec("%s: %s" % (con, k.upper()))
    else:
        rep.bad("header", "%s %s" % (con, k), "%s is %s" % (k.upper(), r.show() if hasattr(r, "show") else
                                                          "a different function of the transform"), where)


def dimension(t):
    """which dimension of the grid's arrays a term is"""
    if t.op == "call" and extname(t) in ("int", "str", "len") and extname(t) != "len":
        return dimension(cargs(t)[0])
    if t.op == "item" and is_const(t.args[1]) and isinstance(cval(t.args[1]), int):
        b = t.args[0]
        if b.op == "attr" and b.args[1] in ("size", "shape"):
            if cval(t.args[1]) in (0, 1):
                return cval(t.args[1])
    return None


def rows(rep, con, data, fill, where):
    if data is None:
        rep.undec("%s: data rows" % con)
        return
    wh = [x for x in walk(data, set()) if extname(x) in ("numpy.where", "numpy.ma.where")]
    if not wh:
        fl = Flips(lambda t: is_self(t) or t.op == "attr" and is_self(t.args[0]))
        n = fl(data)
        if n is None:
            rep.undec("%s: orientation of the data rows" % con)
        elif n == 1:
            rep.ok("%s: rows are written from north to south" % con, where)
        else:
            rep.bad("row-order", con, "rows are written from south to north", where)
        return
    w = wh[0]
    a = cargs(w)
    outer = Flips(lambda t: t is w)(data)
    fm, fv = [Flips(lambda t: is_self(t) or t.op == "attr" and is_self(t.args[0])) for _ in range(2)]
    vals, other = a[1], a[2]
    neg = False
    mask = a[0]
    while mask.op == "un" and mask.args[0] == "~" or mask.op == "not" or extname(mask) == "numpy.logical_not":
        mask = mask.args[1] if mask.op == "un" else mask.args[0] if mask.op == "not" else cargs(mask)[0]
        neg = not neg
    n, k = fm(mask), fv(vals)
    src = fv.found
    if k is None or (src is not None and src.op == "attr" and "mask" in str(src.args[1])):
        vals, other = other, vals
        neg = not neg
        k = fv(vals)
    if n is None or k is None or outer is None:
        rep.undec("%s: orientation of the data rows" % con)
    else:
        if n != k:
            rep.bad("row-order", con + " mask", "missing cells are taken from the mask upside down", where)
        if (k + outer) % 2 == 1:
            rep.ok("%s: rows are written from north to south" % con, where)
        else:
            rep.bad("row-order", con, "rows are written from south to north", where)
    if fm.found is not None and fm.found.op == "attr" and fm.found.args[1] in ("data_mask", "data_mask_full") and k is not None:
        if neg:
            rep.bad("nodata", con + " mask", "valid cells are replaced by the nodata value", where)
    if fill is not None:
        fills = [other] + [x.args[2] for x in walk(data, set()) if x.op == "upd" and len(x.args) > 2 and
                           w in walk(x.args[0], set())]
        for x in fills:
            y = x
            if y is fill:
                rep.ok("%s: missing cells hold the NODATA_VALUE of the header" % con, where)
            elif is_const(y) or is_const(fill) or y.op in ("param", "attr"):
                rep.bad("nodata", con, "missing cells hold %s, the header names %s" % (show(y), show(fill)), where)
            else:
                rep.undec("%s: value of missing cells" % con)


def show(t):
    return str(cval(t)) if is_const(t) else "%s %s" % (t.op, t.args[-1] if not isinstance(t.args[-1], T) else "")


# ---------------------------------------------------------------- reader
def header_key(t):
    """key of a value read from the file's header"""
    if t.op == "item" and is_const(t.args[1]) and isinstance(cval(t.args[1]), str) and reads_file(t.args[0]):
        return cval(t.args[1])
    if t.op == "mcall" and t.args[1] in ("get", "pop") and t.args[2] and is_const(t.args[2][0][1]) and reads_file(t.args[0]):
        return cval(t.args[2][0][1])
    return None


MEMO = {}


def reads_file(t):
    if t not in MEMO:
        MEMO[t] = any(x.op == "mcall" and x.args[1] in ("readline", "readlines", "read") or
                      extname(x) == "open" for x in walk(t, set()))
    return MEMO[t]


def presence(conds):
    """header keys known to be present or absent on a path"""
    have = {}
    for t, b in conds:
        u, v = t, b
        while u.op == "not":
            u, v = u.args[0], not v
        if u.op == "in" and is_const(u.args[0]) and reads_file(u.args[1]):
            have.setdefault(cval(u.args[0]), v)
        if u.op == "isnone":
            k = header_key(u.args[0])
            if k:
                have.setdefault(k, not v)
    return have


def zeros(rep, con, q, have, where):
    """header values whose truth, not their presence, is asked: zero would count as missing"""
    for t, b in q.conds:
        u, v = t, b
        while u.op == "not":
            u, v = u.args[0], not v
        k = header_key(u)
        if k in ZERO and not v and have.get(k) is None:
            rep.bad("zero", con + " " + k, "a %s of zero in the header is taken for a missing one" % k.upper(), where)
            return True
    return False


def reader(rep, p, written):
    m = p.modules.get("karta.raster.read")
    f = m.funcs.get("read_aai") if m else None
    if f is None:
        rep.undec("no read_aai")
        return
    rep.fn("read_aai")
    rep.fn("aairead")
    con, where = "read_aai", "%s (%s)" % (f.where, f.qual)
    paths = [q for q in Interp(p, Flow({"karta.raster._aai", "karta.raster.read"})).run(f, None)]
    n = 0
    kinds = set()
    for q in paths:
        if q.kind != "return" or q.value.op != "new":
            continue
        n += 1
        have = presence(q.conds)
        if zeros(rep, con, q, have, where):
            continue
        for c in ("center", "corner"):
            o = "corner" if c == "center" else "center"
            for ax in "xy":
                if have.get("%sll%s" % (ax, c)) is not False and have.get("%sll%s" % (ax, o)) is not True:
                    kinds.add(ax + "ll" + c)
        a = dict((k, x) for k, x in q.value.args[1])
        tr, values = a.get("transform"), a.get("values")
        for t in walk(q.value, set()):
            k = header_key(t)
            if k is not None and t.op == "item":
                key_case(rep, con, t.args[0], k, where)

        def atom(t):
            k = header_key(t)
            return "hdr:" + k if k else None
        N = Norm(atom)
        if tr is None or tr.op not in ("dict", "tuple", "list") or any(x.op in ("each", "star") for x in tr.args):
            rep.undec("%s: transform" % con)
            continue
        if tr.op == "dict":
            d = {cval(x.args[0]): x.args[1] for x in tr.args if x.op == "kv" and is_const(x.args[0])}
        else:
            d = dict(zip(("xllcorner", "yllcorner", "dx", "dy", "sx", "sy"), tr.args))
        cell = ratom("hdr:cellsize")
        for k in ("dx", "dy"):
            check_hdr(rep, con, k, N, d.get(k), [cell], where)
        for k in ("sx", "sy"):
            check_hdr(rep, con, k, N, d.get(k), [rconst(0)], where)
        for ax in "xy":
            c, k = ax + "llcenter", ax + "llcorner"
            want = []
            if have.get(k) is not False:
                want.append(ratom("hdr:" + k))
            if have.get(c) is not False:
                want.append(ratom("hdr:" + c) - cell / rconst(2))
            if have.get(k) is False and have.get(c) is False:
                continue
            if have.get(c) and have.get(k):
                pass
            elif have.get(c):
                want = [ratom("hdr:" + c) - cell / rconst(2)]
            elif have.get(k):
                want = [ratom("hdr:" + k)]
            check_hdr(rep, con, k, N, d.get(k), want, where)
        # orientation and missing values
        if values is None:
            rep.undec("%s: values" % con)
            continue
        fl = Flips(lambda t: t.op == "mcall" and t.args[1] in ("readlines", "readline", "read") or t.op == "enter")
        par = fl(values)
        if par is None:
            rep.undec("%s: orientation of the rows read" % con)
        elif par == 1:
            rep.ok("%s: the first data line is the northernmost row" % con, where)
        else:
            rep.bad("row-order", con, "the first data line becomes the southernmost row", where)
        marks = [x for x in walk(values, set()) if x.op == "upd" and len(x.args) > 2]
        good = False
        for x in marks:
            mask, v = x.args[1], x.args[2]
            if not (v.op == "ext" and v.args[0].endswith("nan") or extname(v) == "float"):
                if is_const(v) and any(y.op == "cmp" and y.args[0] == "==" and any(
                        header_key(s) == "nodata_value" for s in y.args[1:]) for y in walk(mask, set())):
                    rep.bad("nodata", con, "cells holding the file's nodata value become %s" % cval(v), where)
                continue
            for y in walk(mask, set()):
                if y.op == "cmp" and y.args[0] == "==":
                    for s in y.args[1:]:
                        if header_key(s) == "nodata_value":
                            good = True
                        elif header_key(s) is not None:
                            rep.bad("nodata", con, "cells equal to %s become missing" % header_key(s).upper(), where)
                        elif is_const(s) and have.get("nodata_value") is False:
                            good = True
                            if cval(s) != -9999:
                                rep.bad("nodata", con + " default", "without a nodata line, cells equal to %s become missing"
                                        % cval(s), where)
        wh = [x for x in walk(values, set()) if extname(x) in ("numpy.where", "numpy.ma.masked_equal")]
        if good:
            rep.ok("%s: cells holding the file's nodata value become NaN" % con, where)
        elif marks or wh:
            rep.undec("%s: missing values" % con)
        else:
            rep.bad("nodata", con, "cells holding the file's nodata value are kept as values", where)
    if not n:
        rep.undec("read_aai: result")
    for k in ("xllcorner", "yllcorner", "xllcenter", "yllcenter"):
        if n and k not in kinds:
            rep.bad("header", "%s %s" % (con, k), "files with %s alone are not read" % k.upper(), where)
    # keys recognised in the header
    for name in ("karta.raster._aai", "karta.raster.read"):
        mod = p.modules.get(name)
        for g in (mod.funcs.values() if mod else ()):
            keys_of(rep, g, written)


def key_case(rep, con, d, k, where):
    """the header is kept under keys of the case they are looked up in"""
    for x in walk(d, set()):
        if x.op == "tuple" and len(x.args) == 2 and x.args[0].op in ("item", "mcall") and extname(x.args[1]) == "float":
            key = x.args[0]
        elif x.op in ("set", "kv") and len(x.args) == 2 and extname(x.args[1]) == "float":
            key = x.args[0]
        else:
            continue
        if is_const(key):
            continue
        names = {y.args[1] for y in walk(key, set()) if y.op == "mcall"}
        if k == k.lower() and "lower" in names or k == k.upper() and "upper" in names:
            rep.ok("%s: the header is kept in the case of its keys" % con, where)
        elif not names - {"split", "strip", "readline", "rstrip", "lstrip", "partition", "upper", "lower"}:
            rep.bad("header", con + " case", "header values are kept under keys of another case", where)


def keys_of(rep, g, written):
    """header lines are recognised by a list of keys that contains every key of the format, in the case compared"""
    import ast
    for node in ast.walk(g.node):
        if not (isinstance(node, ast.Compare) and len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn))):
            continue
        right = node.comparators[0]
        if not isinstance(right, (ast.List, ast.Tuple, ast.Set)):
            continue
        ks = {e.value for e in right.elts if isinstance(e, ast.Constant) and isinstance(e.value, str)}
        if len({k.lower() for k in ks} & KEYS) < 5:
            continue
        where = "%s:%d" % (g.module.rel, node.lineno)
        left = ast.dump(node.left)
        missing = KEYS - {k.lower() for k in ks}
        if missing:
            rep.bad("header", "%s keys" % g.name, "header lines %s are not recognised" % ", ".join(sorted(missing)), where)
        elif "'lower'" in left and all(k == k.lower() for k in ks) or "'upper'" in left and all(k == k.upper() for k in ks):
            rep.ok("%s: every header line of the format is recognised in any case" % g.name, where)
        elif "'lower'" in left or "'upper'" in left:
            rep.bad("header", "%s case" % g.name, "keys are compared in the other case", where)
        elif isinstance(node.left, (ast.Name,)):
            rep.undec("%s: case of the keys" % g.name)
        else:
            rep.bad("header", "%s case" % g.name, "keys are compared as written, the writer uses upper case", where)


def check_hdr(rep, con, k, N, t, want, where):
    if t is None:
        rep.bad("transform", "%s %s" % (con, k), "%s is missing from the transform" % k, where)
        return
    r = N(t)
    if any(same(r, w) for w in want):
        rep.ok("%s: %s follows from the header" % (con, k), where)
        return
    inv = {a: x for x, a in N.keys.items()}
    foreign = [inv[a] for poly in (r.n, r.d) for mono in poly for a, _ in mono if a in inv]
    if any(is_const(x) and cval(x) is None for x in foreign):
        rep.bad("transform", "%s %s" % (con, k), "%s is computed from a reference that is not in the header" % k, where)
    elif foreign or not want:
        rep.undec("%s: %s" % (con, k))
    else:
        rep.bad("transform", "%s %s" % (con, k), "%s is not the header's" % k, where)


def check(repo=None):
    rep = Report("C10", RULE)
    rep.minimum = 4
    rep.assumptions = ["text is written in the order of the calls; numpy slicing with a step of -1 reverses rows"]
    p = Program(repo, pyx=False)
    written = set()
    g = p.modules["karta.raster.grid"].classes.get("RegularGrid")
    f = g.lookup("to_aai") if g else None
    try:
        if f is None:
            rep.undec("no to_aai")
        else:
            written = writer(rep, p, f, g)
    except Exception as e:
        rep.undec("to_aai: %s %s" % (type(e).__name__, str(e)[:80]))
    try:
        reader(rep, p, written)
    except Exception as e:
        rep.undec("read_aai: %s %s" % (type(e).__name__, str(e)[:80]))
    return rep
