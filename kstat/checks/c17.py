"""C17: data rows stay aligned with the geometry parts they describe."""
from ..loader import Program
from ..interp import Interp, Policy
from ..report import Report
from ..results import ResultPolicy, concrete, returned, results_in, new_class, has_rest, MULTI
from ..terms import T, mk, walk, arg, contains, is_const, cval, NONE, const

TECHNIQUE = "index-correspondence analysis of rows, fields and parts over path-wise value terms"
RULE = ("Wherever a row of a data table is built, the value at each position must be looked up under the field name at "
        "that position; wherever a value is filed under a name it must have been looked up under that name; field "
        "lists and rows are edited at one position; and every multipart result selects its vertices and its rows "
        "with the same index sequence, in the same order, from the same source.")
V = "karta.vector."
SEQ = ("list", "tuple", "iter")
REORDER = ("reversed", "sorted", "set", "frozenset", "numpy.unique", "numpy.sort", "numpy.argsort", "numpy.flipud")


def ext(t):
    return t.args[0].args[0] if t.op == "call" and t.args[0].op in ("ext", "builtin") else None


def args_of(t):
    return [x for _, x in t.args[1]]


class Canon(object):
    """index-normal form: positions are elem/idx of the sequence they run over"""
    def __init__(self):
        self.memo = {}

    def __call__(self, t):
        if t in self.memo:
            return self.memo[t]
        self.memo[t] = t
        r = self.step(mk(t.op, *[self.arg(a) for a in t.args]))
        self.memo[t] = r
        return r

    def arg(self, a):
        if isinstance(a, T):
            return self(a)
        if isinstance(a, tuple):
            return tuple(self.arg(x) for x in a)
        return a

    def step(self, t):
        op = t.op
        if op in ("elem", "idx", "each"):
            it = self.base(t.args[0])
            if it is not t.args[0]:
                t = mk(op, it, *t.args[1:])
        if op == "each":
            it = t.args[0]
            while it.op in ("list", "gen") and len(it.args) == 1 and it.args[0].op == "each" and not it.args[0].args[2]:
                it = self.base(it.args[0].args[0])
            if ext(it) == "range":
                a = args_of(it)
                if len(a) == 2 and a[0] is const(0):
                    a = a[1:]
                if len(a) == 1 and a[0].op == "len":
                    it = self.base(a[0].args[0])
            if it is not t.args[0]:
                t = mk(op, it, *t.args[1:])
        if op == "elem":
            S = t.args[0]
            n = ext(S)
            if n == "range":
                a = args_of(S)
                if len(a) == 2 and a[0] is const(0):
                    a = a[1:]
                if len(a) == 1 and a[0].op == "len":
                    return self.step(mk("idx", a[0].args[0], t.args[1]))
            if S.op in ("list", "gen") and len(S.args) == 1 and S.args[0].op == "each" and not S.args[0].args[2]:
                e = S.args[0]
                return self(resub(e.args[3], e.args[0], e.args[1], t.args[1]))
        if op == "idx":
            S = t.args[0]
            n = ext(S)
            if n == "range" and len(S.args[1]) == 1:
                return self.step(mk("elem", S, t.args[1]))
            if n == "zip" and S.args[1]:
                return self.step(mk("idx", S.args[1][0][1], t.args[1]))
            if S.op in ("list", "gen") and len(S.args) == 1 and S.args[0].op == "each" and not S.args[0].args[2]:
                return self.step(mk("idx", S.args[0].args[0], t.args[1]))
        if op == "item":
            b, k = t.args
            b = self.base(b)
            if b is not t.args[0]:
                t = mk("item", b, k)
            if k.op == "idx" and k.args[0] is b:
                return self.step(mk("elem", b, k.args[1]))
            if k.op in ("idx", "elem") and b.op in ("list", "gen") and len(b.args) == 1 and b.args[0].op == "each" \
                    and not b.args[0].args[2]:
                e = b.args[0]
                S = e.args[0]
                if k.op == "idx" and k.args[0] is S:
                    return self(resub(e.args[3], S, e.args[1], k.args[1]))
                if k.op == "elem" and k.args[0] is S and ext(S) == "range":
                    return self(resub(e.args[3], S, e.args[1], k.args[1]))
            if b.op in ("list", "tuple") and is_const(k) and isinstance(cval(k), int) and \
                    not any(x.op in ("each", "star") for x in b.args) and 0 <= cval(k) < len(b.args):
                return b.args[cval(k)]
            if b.op == "new" and new_class(b) == "Indexer":
                tb = arg(b, "table", 0)
                if tb is not None:
                    return mk("mcall", tb, "get", ((0, k),))
        if op == "attr" and t.args[1] == "_fields" and t.args[0].op == "new" and new_class(t.args[0]) == "Table":
            f = arg(t.args[0], "fields")
            if f is not None:
                return self.base(f)
        if op == "attr" and t.args[1] == "data" and t.args[0].op == "attr" and t.args[0].args[1] == "data":
            return mk("attr", t.args[0], "_data")
        return t

    def base(self, S):
        while ext(S) in SEQ and len(S.args[1]) == 1:
            S = S.args[1][0][1]
        if S.op in ("list", "tuple") and len(S.args) == 1 and S.args[0].op == "star":
            return self.base(S.args[0].args[0])
        if S.op in ("list", "gen") and len(S.args) == 1 and S.args[0].op == "each" and not S.args[0].args[2] and \
                S.args[0].args[3].op == "elem" and S.args[0].args[3].args == S.args[0].args[:2]:
            return self.base(S.args[0].args[0])
        return S


def resub(body, S, d, d2):
    if d == d2:
        return body
    memo = {}

    def go(x):
        if not isinstance(x, T):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        if x in memo:
            return memo[x]
        if x.op in ("elem", "idx") and x.args[1] == d:
            r = mk(x.op, go(x.args[0]), d2)
        else:
            r = mk(x.op, *[go(a) for a in x.args])
        memo[x] = r
        return r
    return go(body)


WRONG = mk("unknown", "position in another field list")


def fields_of(S):
    """table whose field list S is"""
    return S.args[0] if S.op == "attr" and S.args[1] == "_fields" else None


def field_like(t):
    """is t the name at a position of a field list"""
    return t.op == "elem"


def row_source(R):
    """table of which R is a row"""
    if R.op in ("item", "elem"):
        b = R.args[0]
        if R.op == "item" and R.args[1].op == "slice":
            return None
        if b.op == "attr" and b.args[1] in ("_data",):
            return b.args[0]
        if b.op == "attr" and b.args[1] == "data":
            return b
        if b.op == "item" and b.args[1].op != "slice" and False:
            return None
        if R.op == "elem" and b.op == "item":      # element of a slice of the rows
            x = b.args[0]
            if x.op == "attr" and x.args[1] == "_data":
                return x.args[0]
    return None


def pos(k, X):
    """name of the field at position k of table X's rows; WRONG if k counts another list; None unknown"""
    if k.op == "idx":
        Y = fields_of(k.args[0])
        if Y is X:
            return mk("elem", k.args[0], k.args[1])
        if Y is not None:
            return WRONG
        if k.args[0].op == "attr" and k.args[0].args[1] == "fields":
            return WRONG
        return None
    if k.op == "mcall" and k.args[1] == "index":
        Y = fields_of(k.args[0])
        if Y is X:
            return args_of(mk("call", k.args[0], k.args[2]))[0] if k.args[2] else None
        if Y is not None:
            return WRONG
        if any(x.op == "attr" and x.args[1] == "fields" for x in walk(k.args[0])):
            return WRONG
        return None
    if k.op == "bin" and k.args[0] in ("+", "-"):
        a, b = k.args[1:]
        if is_const(b) and cval(b) and isinstance(cval(b), int) and pos(a, X) is not None:
            return WRONG
        return None
    if k.op == "item" and k.args[0].op == "list" and k.args[1].op in ("idx", "elem"):
        r = None
        for e in k.args[0].args:
            if e.op != "each" or k.args[1].op != "idx":
                return None
            if k.args[1].args[0] is not e.args[0]:
                if set_typed(e.args[0]) or fields_of(e.args[0]) is not None:
                    return WRONG
                return None
            b = resub(e.args[3], e.args[0], e.args[1], k.args[1].args[1])
            if b is NONE:
                continue
            p = pos(b, X)
            if p is None or (r is not None and r is not p):
                return None
            r = p
        return r
    return None


def lookups(t):
    """field names under which the values inside t were looked up"""
    out = []
    for x in walk(t):
        if x.op == "item":
            X = row_source(x.args[0])
            if X is not None:
                p = pos(x.args[1], X)
                out.append((p, x))
                continue
            if x.args[1].op == "elem" and x.args[0].op in ("elem", "param", "attr"):
                out.append((x.args[1], x))
        elif x.op == "mcall" and x.args[1] in ("get", "getfield") and x.args[2]:
            f = x.args[2][0][1]
            if x.args[1] == "getfield" or f.op in ("elem",):
                out.append((f, x))
    return out


def same_name(rep, what, where, name, val, rule="value-under-wrong-field"):
    """a value filed under `name`"""
    ls = lookups(val)
    if not ls:
        return False
    if any(f is name for f, _ in ls):
        rep.ok("%s: value looked up under its own field" % what, where)
        return True
    bad = [f for f, _ in ls if f is WRONG or (f is not None and field_like(name) and
                                              (field_like(f) or f.op == "item" and fields_of(f.args[0]) is not None and
                                               is_const(f.args[1])))]
    if bad:
        rep.bad(rule, what, "a value filed under one field (%s) is looked up under another (%s)"
                % (short(name), short(bad[0])), where)
    else:
        rep.undec("%s: %s" % (what, short(val)))
    return True


def short(t):
    s = str(t)
    return s if len(s) < 90 else s[:87] + "..."


def unwrap(t):
    while ext(t) in SEQ and len(t.args[1]) == 1:
        t = t.args[1][0][1]
    return t


def set_typed(S):
    if S.op == "attr" and S.args[1] == "fields":
        return True
    if ext(S) in ("set", "frozenset"):
        return True
    return False


def check_row(rep, what, where, row, F):
    """row built for a table whose fields are F (a canonical sequence term)"""
    r = unwrap(row)
    if r.op in ("list", "gen", "tuple") and r.args and all(e.op == "each" for e in r.args):
        S = {e.args[0] for e in r.args}
        if len(S) == 1:
            S = S.pop()
            if S is F:
                rep.ok("%s: row built in field order" % what, where)
                for e in r.args:
                    if not is_const(e.args[3]):
                        same_name(rep, what, where, mk("elem", S, e.args[1]), e.args[3])
                return
            if set_typed(S) or fields_of(S) is not None or S.op == "elem" or ext(S) in REORDER or \
                    (S.op == "mcall" and S.args[1] in ("items", "values", "keys") and not contains(F, S)):
                rep.bad("row-order", what, "a row for the fields %s is built in the order of %s"
                        % (short(F), short(S)), where)
                return
        rep.undec("%s: row %s" % (what, short(r)))
        return
    X = row_source(r)
    if X is not None:
        FX = mk("attr", X, "_fields")
        if F is FX:
            rep.ok("%s: rows keep their field list" % what, where)
        elif set_typed(F) or fields_of(F) is not None or ext(F) in REORDER:
            rep.bad("row-order", what, "rows of %s are given the field list %s" % (short(X), short(F)), where)
        else:
            rep.undec("%s: fields %s" % (what, short(F)))


# ------------------------------------------------------------------ table.py
class TablePolicy(ResultPolicy):
    def inline(self, interp, f, recv, depth):
        if f.module.name == V + "table":
            return f.cls is None and f.name != "merge"
        return ResultPolicy.inline(self, interp, f, recv, depth)


def splice(t):
    """('insert'|'mut', sequence, position, value) of an edited tuple"""
    t = unwrap(t)
    if t.op == "upd":
        return ("mut", unwrap(t.args[0]), t.args[1], t.args[2])
    if t.op == "bin" and t.args[0] == "+":
        parts = []

        def flat(x):
            x = unwrap(x)
            if x.op == "bin" and x.args[0] == "+":
                flat(x.args[1])
                flat(x.args[2])
            else:
                parts.append(x)
        flat(t)
        return seq_splice(parts)
    if t.op in ("list", "tuple") and t.args:
        parts = []
        for a in t.args:
            parts.append(unwrap(a.args[0]) if a.op == "star" else mk("list", a))
        return seq_splice(parts)
    return None


def seq_splice(parts):
    if len(parts) == 3 and parts[1].op in ("list", "tuple") and len(parts[1].args) == 1:
        a, v, b = parts[0], parts[1].args[0], parts[2]
        if a.op == "item" and b.op == "item" and a.args[0] is b.args[0] and a.args[1].op == b.args[1].op == "slice":
            lo, k, st = a.args[1].args
            k2, hi, st2 = b.args[1].args
            if is_const(lo) and cval(lo) in (None, 0) and is_const(hi) and cval(hi) is None:
                if k is k2:
                    return ("insert", unwrap(a.args[0]), k, v)
                if k2.op == "bin" and k2.args[0] == "+" and const(1) in k2.args[1:] and k in k2.args[1:]:
                    return ("mut", unwrap(a.args[0]), k, v)
    if len(parts) == 2:
        a, b = parts
        if b.op in ("list", "tuple") and len(b.args) == 1 and a.op not in ("list", "tuple"):
            return ("insert", a, "end", b.args[0])
        if a.op in ("list", "tuple") and len(a.args) == 1 and b.op not in ("list", "tuple"):
            return ("insert", b, const(0), a.args[0])
    return None


def run(p, c, f, policy, rep):
    i = Interp(p, policy)
    try:
        return i, i.run(f, c)
    except Exception as e:
        rep.undec("%s: %s" % (f.qual, type(e).__name__))
        return i, []


def table_part(p, rep, C):
    m = p.modules.get(V + "table")
    if m is None:
        return
    fs = [(None, f) for f in m.funcs.values()]
    tbl = m.classes.get("Table")
    if tbl is not None:
        fs += [(tbl, f) for f in tbl.methods.values()]
    if "Indexer" in m.classes:
        fs += [(m.classes["Indexer"], f) for f in m.classes["Indexer"].methods.values()]
    gm = p.modules.get(V + "geometry")
    if gm is not None:
        fs += [(None, f) for f in gm.funcs.values()]
    rm = p.modules.get(V + "read")
    if rm is not None:
        fs += [(None, f) for f in rm.funcs.values() if "shapefile" in f.name or "properties" in f.name]
    for c, f in fs:
        name = ("%s.%s" % (c.name, f.name)) if c is not None else f.name
        rep.fn(name)
        i, paths = run(p, c, f, TablePolicy(), rep)
        for x in paths:
            if x.kind == "return" and x.value is not None:
                values(rep, C, name, x.where, C(i.reify(x.value, x.state)), f, x)
            for e in x.events:
                event(rep, C, name, e, i, x)
            if c is tbl and f.name == "__init__":
                init_table(rep, C, i, x)
            elif c is tbl:
                stored(rep, C, name, i, x)


def values(rep, C, name, where, v, f, x):
    for t in walk(v):
        if t.op == "kv":
            same_name(rep, name, where, t.args[0], t.args[1])
        if ext(t) == "zip" and len(t.args[1]) == 2:
            F, r = [Canon().base(a) for a in args_of(t)]
            X = row_source(r)
            if X is not None:
                if fields_of(F) is X:
                    rep.ok("%s: row zipped with its field list" % name, where)
                elif set_typed(F) or fields_of(F) is not None or ext(F) in REORDER:
                    rep.bad("row-order", name, "a row is zipped with %s" % short(F), where)
        if t.op == "new" and new_class(t) == "Table":
            table_new(rep, name, where, t)
    if f.name == "getfield" and f.cls is not None and f.cls.name == "Table" and len(f.pos) > 1:
        for e in v.args if v.op in ("list", "gen") else ():
            if e.op == "each":
                S = e.args[0]
                if S.op == "attr" and S.args[1] == "_data" and not e.args[2]:
                    same_name(rep, name, where, mk("param", f.pos[1]), e.args[3])
                    rep.ok("getfield: one value per row in row order", where)
                elif ext(S) in REORDER or (S.op == "item" and S.args[1].op == "slice"):
                    rep.bad("row-order", name, "a column is not taken from the rows in order: %s" % short(S), where)
        # wrong position for the asked field
        for fl, t in lookups(v):
            if fl is WRONG:
                rep.bad("value-under-wrong-field", name, "position taken from another field list", where)


def event(rep, C, name, e, i, x):
    if e.kind == "mcall":
        t = C(i.reify(e.term, x.state))
        if t.op != "mcall":
            return
        if t.args[1] == "setfield" and len(t.args[2]) >= 2:
            fld, vals = arg_m(t, "field", 0), arg_m(t, "values", 1)
            if fld is not None and vals is not None:
                if same_name(rep, name, e.where, fld, vals):
                    return
                if fld.op == "item" and vals.op == "item" and fld.args[0].op == "elem":
                    if fld.args[0] is vals.args[0]:
                        rep.ok("%s: field and values from one entry" % name, e.where)
        elif t.args[1] == "append" and t.args[0].op == "attr" and t.args[0].args[1] == "_data" and t.args[2]:
            X = t.args[0].args[0]
            F = C(mk("attr", X, "_fields"))
            r = C(t.args[2][0][1])
            check_row(rep, name, e.where, r, F)
            for y in walk(r):
                if y.op == "elem" and ext(y.args[0]) in REORDER and y.args[0].args[1] and \
                        any(z.op in ("param",) for z in walk(y.args[0])) and not set_typed(y.args[0]):
                    rep.bad("row-order", name, "rows are appended in the order of %s" % short(y.args[0]), e.where)
    elif e.kind == "store":
        k, v = C(i.reify(e.extra[0], x.state)), C(i.reify(e.extra[1], x.state))
        b = i.reify(e.term, x.state)
        if field_like(k) and not (b.op == "attr" and b.args[1] in ("data", "_data")):
            same_name(rep, name, e.where, k, v)
        if b.op == "attr" and b.args[1] == "data" and v.op != "param":
            check_row(rep, name, e.where, v, mk("attr", b, "_fields"))
    elif e.kind == "new":
        t = C(i.reify(e.term, x.state))
        if t.op == "new" and new_class(t) == "Table":
            table_new(rep, name, e.where, t)


def arg_m(t, name, n):
    for k, v in t.args[2]:
        if k == name or k == n:
            return v
    return None


def table_new(rep, name, where, t):
    F, D = arg(t, "fields", 1), arg(t, "data", 0)
    if F is None or D is None:
        return
    D = unwrap(D)
    if D.op in ("list", "gen"):
        for e in D.args:
            if e.op == "each":
                check_row(rep, name, where, e.args[3], Canon().base(F))
    elif D.op == "attr" and D.args[1] == "_data":
        check_row(rep, name, where, mk("elem", D, 0), Canon().base(F))


def init_table(rep, C, i, x):
    if x.kind != "return":
        return
    st = {n: C(i.reify(v, x.state)) for (b, n), v in x.state.attrs.items() if b is mk("param", "self")}
    F, D = st.get("_fields"), st.get("_data")
    if F is None or D is None:
        return
    Fb, Db = Canon().base(F), Canon().base(D)
    for e in Db.args if Db.op in ("list", "gen") else ():
        if e.op == "each":
            row = unwrap(e.args[3])
            it = e.args[0]
            # rows are the transposition of one column per field
            if row.op == "elem" and row.args[0] is it and ext(it) == "zip" and len(it.args[1]) == 1:
                star = it.args[1][0][1]
                if star.op == "star":
                    cols = unwrap(star.args[0])
                    if cols.op in ("list", "gen") and len(cols.args) == 1 and cols.args[0].op == "each":
                        ce = cols.args[0]
                        if ce.args[0] is Fb and not ce.args[2]:
                            rep.ok("Table.__init__: columns in field order", x.where)
                            same_name(rep, "Table.__init__", x.where, mk("elem", Fb, ce.args[1]), ce.args[3])
                        elif ext(ce.args[0]) in REORDER or set_typed(ce.args[0]):
                            rep.bad("row-order", "Table.__init__", "columns are put together in the order of %s, the "
                                    "fields are %s" % (short(ce.args[0]), short(Fb)), x.where)
    src = Fb
    if src.op == "attr" and src.args[1] == "fields":
        D0 = Db
        if D0.op == "attr" and D0.args[1] in ("_data", "data"):
            rep.bad("row-order", "Table.__init__", "rows are copied but the field list comes from an unordered set",
                    x.where)
    if src.op == "attr" and src.args[1] == "_fields" and Db.op == "attr" and Db.args[0] is src.args[0]:
        rep.ok("Table.__init__: copied rows keep their field list", x.where)


def stored(rep, C, name, i, x):
    """setfield and the like: the field list and the rows are edited at the same place"""
    if x.kind != "return":
        return
    self_ = mk("param", "self")
    st = {n: C(i.reify(v, x.state)) for (b, n), v in x.state.attrs.items() if b is self_}
    D, F = st.get("_data"), st.get("_fields")
    if D is None:
        return
    Db = Canon().base(D)
    F0 = mk("attr", self_, "_fields")
    if Db.op not in ("list", "gen"):
        return
    for e in Db.args:
        if e.op != "each":
            continue
        s = splice(C(e.args[3]))
        if s is None:
            r = unwrap(e.args[3])
            if F is not None and r.op in ("tuple", "list") and len(r.args) == 1:
                Fu = unwrap(F)
                if Fu.op in ("tuple", "list") and len(Fu.args) == 1:
                    rep.ok("%s: one field, one column" % name, x.where)
            continue
        kind, base, k, v = s
        it = e.args[0]
        src = [it] if ext(it) != "zip" else args_of(it)
        for q in src:
            if ext(q) in REORDER or (q.op == "item" and q.args[1].op == "slice"):
                rep.bad("row-order", name, "values are matched with rows through %s" % short(q), x.where)
        if base.op == "elem" and v.op == "elem" and base.args[1] != v.args[1]:
            rep.bad("row-order", name, "every row is combined with every value", x.where)
        if F is None or C(F) is F0:
            fld = pos(k, self_) if isinstance(k, T) else None
            if kind == "insert":
                rep.bad("row-order", name, "rows grow but the field list does not", x.where)
            elif fld is WRONG:
                rep.bad("value-under-wrong-field", name, "a row is changed at a position counted in another list",
                        x.where)
            elif fld is not None and fld.op == "param":
                rep.ok("%s: row changed at the position of the field" % name, x.where)
            else:
                rep.undec("%s: position %s" % (name, k))
        else:
            fs = splice(C(F))
            if fs is None:
                rep.undec("%s: fields %s" % (name, short(F)))
                continue
            end = ("end", mk("len", F0))
            k1 = "end" if fs[2] in end else fs[2]
            k2 = "end" if k in end or (isinstance(k, T) and k.op == "len" and k.args[0] is base) else k
            if kind != fs[0] or k1 is not k2 and k1 != k2:
                rep.bad("row-order", name, "the field list is changed at %s but the rows at %s" % (k1, k2), x.where)
            else:
                rep.ok("%s: fields and rows changed at one position" % name, x.where)


# ------------------------------------------------------------------ multipart geometries
def vertex_src(t, selft):
    """the object's own parts"""
    if t is selft:
        return True
    if t.op == "attr" and t.args[0] is selft and t.args[1] in ("_vertices", "coordinates"):
        return True
    if t.op == "mcall" and t.args[0] is selft and t.args[1] in ("vertices", "coords"):
        return True
    if ext(t) in ("numpy.array", "numpy.asarray") + SEQ and t.args[1]:
        return vertex_src(t.args[1][0][1], selft)
    if t.op == "mcall" and t.args[1] == "asarray":
        return vertex_src(t.args[0], selft)
    return False


def data_src(t, selft):
    if t.op == "attr" and t.args[1] in ("_data", "data"):
        return t.args[0] is selft or data_src(t.args[0], selft)
    return False


def selection(t, src, selft):
    """('whole',) | ('at', key) | ('map', S, depth-free key) | None"""
    t = unwrap(t)
    if src(t, selft):
        return ("whole",)
    if t.op == "item" and src(t.args[0], selft):
        return ("at", t.args[1])
    if t.op == "mcall" and t.args[1] in ("slice", "get") and src(t.args[0], selft):
        a = [x for _, x in t.args[2]]
        if len(a) == 1:
            return ("at", a[0])
        if len(a) == 3:
            ks = [x for x in walk(a[0]) if x.op == "param"]
            ok = all(x.op == "item" and x.args[0].op == "mcall" and x.args[0].args[1] == "indices" and
                     is_const(x.args[1]) and cval(x.args[1]) == n for n, x in enumerate(a))
            if ok and a[0].args[0] is a[1].args[0] is a[2].args[0]:
                return ("at", a[0].args[0].args[0])
            if ks:
                return ("odd", t)
        return None
    if t.op in ("list", "gen") and t.args and all(e.op == "each" for e in t.args):
        if len(t.args) != 1:
            return None
        e = t.args[0]
        b = e.args[3]
        inner = [x for x in walk(b) if (x.op in ("item", "elem")) and src(x.args[0], selft)]
        if not inner:
            return None
        x = inner[0]
        if x.op == "elem":
            S = e.args[0]
            return ("whole",) if not e.args[2] else ("filter", e.args[0], e.args[2])
        if e.args[2]:
            return ("filter", e.args[0], e.args[2], resub(x.args[1], e.args[0], e.args[1], 0))
        if x.args[1].op == "elem" and x.args[1].args[0] is e.args[0]:
            k = range_of_slice(e.args[0])
            if k is not None:
                return ("at", k)
        return ("map", e.args[0], resub(x.args[1], e.args[0], e.args[1], 0))
    if ext(t) in ("numpy.array", "numpy.asarray", "numpy.vstack") or (ext(t) or "").endswith("CoordString"):
        if not t.args[1]:
            return None
        return selection(t.args[1][0][1], src, selft)
    if ext(t) in REORDER and t.args[1]:
        s = selection(t.args[1][0][1], src, selft)
        return ("reorder", ext(t), s) if s is not None else None
    return None


def slice_bounds(a):
    """the slice whose indices() the three terms are"""
    if len(a) == 3 and all(x.op == "item" and x.args[0].op == "mcall" and x.args[0].args[1] == "indices" and
                           is_const(x.args[1]) and cval(x.args[1]) == n for n, x in enumerate(a)) and \
            a[0].args[0] is a[1].args[0] is a[2].args[0]:
        return a[0].args[0].args[0]
    return None


def range_of_slice(S):
    """the slice key that range(*key.indices(n)) or range(n)[key] enumerates"""
    S = unwrap(S)
    if S.op == "item" and ext(S.args[0]) == "range" and len(S.args[0].args[1]) == 1:
        return S.args[1]
    if ext(S) != "range":
        return None
    a = [x for _, x in S.args[1]]
    if len(a) == 1 and a[0].op == "star" and a[0].args[0].op == "mcall" and a[0].args[0].args[1] == "indices":
        return a[0].args[0].args[0]
    return slice_bounds(a)


def protocol(p, rep, c, f, name):
    """slices of geometries denote the vertices that range(*key.indices(n)) enumerates"""
    selft = mk("param", f.pos[0])
    seen = set()
    for v, conds, where, path, i in returned(p, c, f, policy=ResultPolicy(), rep=rep):
        for x in walk(v, seen):
            if x.op == "mcall" and x.args[1] == "slice" and vertex_src(x.args[0], selft):
                a = [t for _, t in x.args[2]]
                k = slice_bounds(a)
                if k is not None:
                    rep.bad("slice-protocol", name, "CoordString.slice counts a stop of zero or less from the end and "
                            "wraps around when start exceeds stop, so with the bounds of slice.indices it returns other "
                            "vertices for negative steps and empty slices", where)
            elif x.op == "list" and len(x.args) == 1 and x.args[0].op == "each" and not x.args[0].args[2]:
                if range_of_slice(x.args[0].args[0]) is not None:
                    rep.ok("%s: vertices of a slice are enumerated as by range" % name, where)


def data_selection(D, selft):
    D = unwrap(D)
    if D.op == "new" and new_class(D) == "Table":
        d = arg(D, "data", 0)
        if d is None:
            return None
        return data_selection(d, selft)
    if D.op == "mcall" and D.args[1] == "get" and data_src(D.args[0], selft) and D.args[2]:
        return ("at", D.args[2][0][1])
    if D.op == "dict":
        # columns selected one by one
        sels = set()
        for e in D.args:
            b = e.args[3] if e.op == "each" else e
            if b.op != "kv":
                return None
            v = b.args[1]
            if v.op in ("list", "gen") and len(v.args) == 1 and v.args[0].op == "each":
                S = v.args[0].args[0]
                if v.args[0].args[2]:
                    return None
                s = selection(S, data_src, selft)
                if s is None:
                    rows = [x for x in walk(v.args[0].args[3]) if x.op == "item" and data_src(x.args[0], selft)]
                    if len(rows) == 1:
                        s = ("map", S, resub(rows[0].args[1], S, v.args[0].args[1], 0))
                sels.add(s)
            elif v.op == "item":
                sels.add(("at", v.args[1]))
            else:
                return None
        return sels.pop() if len(sels) == 1 else None
    return selection(D, data_src, selft)


def geometry_part(p, rep, C):
    for c in concrete(p):
        if c.name not in MULTI:
            continue
        seen = set()
        for k in c.mro():
            for f in getattr(k, "methods", {}).values():
                if f.name in seen:
                    continue
                seen.add(f.name)
                if not f.pos or f.name == "__init__":
                    continue
                name = "%s.%s" % (c.name, f.name)
                rep.fn(name)
                selft = mk("param", f.pos[0])
                for v, conds, where, path, i in returned(p, c, f, rep=rep):
                    v = C(v)
                    for t in results_in(v):
                        if new_class(t) == c.name:
                            one(rep, name, where, t, selft)
                            joined(rep, name, where, t)
                    for t in walk(v):
                        if t.op == "new" and new_class(t) == "Table":
                            table_new(rep, name, where, t)
                        elif t.op == "new" and new_class(t) not in MULTI:
                            single(rep, name, where, t, selft)
                if f.name in ("__setitem__", "extend", "append", "__delitem__", "insert"):
                    edits(p, rep, C, c, f, name)
        ctor(p, rep, C, c)


def one(rep, name, where, t, selft):
    first = next((arg(t, n) for n in ("inputs", "coords", "vertices", 0) if arg(t, n) is not None), None)
    D = arg(t, "data", 1)
    if first is None:
        return
    vs = selection(first, vertex_src, selft)
    parts = carries(first, selft)
    if D is None or D is NONE:
        if parts:
            rep.ok("%s: built from parts with their rows" % name, where)
        return
    ds = data_selection(D, selft)
    if vs is None or ds is None:
        if ds is not None and ds != ("whole",) or (vs is not None and vs != ("whole",) and contains(D, mk("attr", selft, "data"))):
            rep.undec("%s: vertices %s, data %s" % (name, vs, ds))
        elif ds == ("whole",):
            # a rearranged set of parts with all rows in order
            for x in walk(first):
                if (ext(x) in REORDER or turned(x)) and any(vertex_src(y, selft) for y in walk(x)):
                    rep.bad("rows-not-selected", name, "the parts are rearranged by %s but the rows are not" % (ext(x) or short(x)),
                            where)
                    return
            rep.ok("%s: all rows with all parts" % name, where)
        return
    if vs == ds:
        rep.ok("%s: parts and rows selected by %s" % (name, short(vs[1]) if len(vs) > 1 else "none"), where)
    elif vs[0] == ds[0] == "map" and equiv(vs, ds):
        rep.ok("%s: parts and rows selected alike" % name, where)
    elif vs[0] in ("at", "map", "whole", "odd", "reorder", "filter") and ds[0] in ("at", "map", "whole", "reorder", "filter"):
        if definite(vs, ds):
            rep.bad("rows-not-selected", name, "the parts are selected by %s but the rows by %s"
                    % (show(vs), show(ds)), where)
        else:
            rep.undec("%s: %s / %s" % (name, show(vs), show(ds)))


def turned(x):
    return x.op == "item" and x.args[1].op == "slice" and is_const(x.args[1].args[2]) and \
        cval(x.args[1].args[2]) not in (None, 1) and not (x.args[0].op == "item")


def show(s):
    return " ".join([s[0]] + [short(x) for x in s[1:] if isinstance(x, T)])


def equiv(a, b):
    """list over S keyed elem(S) against list over range etc."""
    return a[1] is b[1] and a[2] is b[2]


def definite(a, b):
    """are two different selections certainly different"""
    if a[0] == "whole" or b[0] == "whole":
        o = b if a[0] == "whole" else a
        return o[0] in ("at", "map", "reorder", "odd", "filter")
    if a[0] == b[0] == "map":
        x, y = a[2], b[2]
        S1, S2 = a[1], b[1]
        if S1 is S2:
            return x is not y and (contains(x, y) or contains(y, x) or x.op in ("idx", "elem") and y.op in ("idx", "elem"))
        # the same index source in another order or extent
        for P, Q in ((S1, S2), (S2, S1)):
            if P is not Q and contains(P, Q) and (ext(P) in REORDER or P.op == "item" or ext(P) == "range"):
                return True
        return False
    if a[0] == b[0] == "at":
        return contains(a[1], b[1]) or contains(b[1], a[1]) or a[1].op == b[1].op == "param"
    if "reorder" in (a[0], b[0]):
        return True
    if "odd" in (a[0], b[0]):
        return False
    return False


def carries(first, selft):
    t = unwrap(first)
    return t.op in ("list", "gen") and t.args and all(
        e.op == "each" and e.args[3].op in ("item", "elem") and e.args[3].args[0] is selft for e in t.args)


def single(rep, name, where, t, selft):
    """one part with its row: both taken at the same index"""
    first = next((arg(t, n) for n in ("coords", "vertices", 0) if arg(t, n) is not None), None)
    pr = arg(t, "properties")
    if first is None or pr is None:
        return
    rows = []
    for x in walk(pr):
        if x.op == "mcall" and x.args[1] == "get" and data_src(x.args[0], selft) and x.args[2]:
            rows.append(x.args[2][0][1])
        elif x.op == "item" and data_src(x.args[0], selft):
            rows.append(x.args[1])
    parts = [x.args[1] for x in walk(first) if x.op == "item" and vertex_src(x.args[0], selft)]
    if len(set(rows)) == 1 and len(set(parts)) == 1:
        r, q = rows[0], parts[0]
        if r is q:
            rep.ok("%s: part and row at the same index" % name, where)
        elif contains(r, q) or contains(q, r) or (r.op == q.op == "idx") or (is_const(r) and q.op == "param"):
            rep.bad("wrong-row", name, "part %s gets row %s" % (short(q), short(r)), where)
        else:
            rep.undec("%s: part %s row %s" % (name, short(q), short(r)))


def seq_keys(t):
    """[(S, conds)] of the entries of a list, through stacking calls"""
    t = unwrap(t)
    if ext(t) in ("numpy.vstack", "numpy.concatenate", "numpy.array", "numpy.asarray", "itertools.chain") and t.args[1]:
        return seq_keys(t.args[1][0][1])
    if t.op == "star":
        return seq_keys(t.args[0])
    if t.op in ("list", "gen"):
        es = [e for e in t.args if e.op != "set" and not (e.op == "each" and e.args[3].op == "set")]          # later overwriting of entries keeps their places
        if es and all(e.op == "each" for e in es):
            return [(e.args[0], tuple(e.args[2])) for e in es]
    return None


def joined(rep, name, where, t):
    """merge: parts and rows come from the same operands in the same order"""
    first = next((arg(t, n) for n in ("inputs", "coords", "vertices", 0) if arg(t, n) is not None), None)
    D = arg(t, "data", 1)
    if first is None or D is None or D.op != "call" or D.args[0].op != "func" or \
            D.args[0].args[0] != V + "table.merge":
        return
    m = arg(D, "mappings", 0)
    if m is None:
        return
    mm = m
    while (mm.op == "item" and mm.args[1].op == "slice") or (ext(mm) in REORDER and mm.args[1]):
        mm = mm.args[0] if mm.op == "item" else mm.args[1][0][1]
    if mm is not m and seq_keys(mm):
        if not any(ext(x) in REORDER or (x.op == "slice" and is_const(x.args[2]) and cval(x.args[2]) not in (None, 1))
                   for x in walk(first)):
            rep.bad("join-order", name, "rows are joined in another order than the parts: %s" % short(m), where)
        return
    kd = seq_keys(m)
    if kd is None:
        return
    SD = {s for s, _ in kd}
    lists = []
    for x in walk(first):
        k = seq_keys(x) if x.op in ("list", "gen") else None
        if k and not any(s.op in ("elem", "item") for s, _ in k):
            lists.append(k)
    if not lists or len(SD) != 1:
        rep.undec("%s: joined parts" % name)
        return
    # a later pass over the collected parts (adding a zero height) keeps their order
    k = None
    for q in lists:
        SQ = {s for s, _ in q}
        if any(ext(s) in REORDER for s in SQ):
            k = q
            break
        if k is None and all(s.op in ("param", "list", "attr", "call", "item") for s in SQ) and \
                not any(s.op == "list" for s in SQ):
            k = q
    if k is None:
        rep.undec("%s: joined parts" % name)
        return
    SK = {s for s, _ in k}
    if len(SK) != 1:
        rep.undec("%s: joined parts" % name)
        return
    a, b = SK.pop(), SD.pop()
    if a is not b:
        if contains(a, b) or contains(b, a) or a.op == b.op == "param":
            rep.bad("join-order", name, "parts are joined in the order of %s, rows in the order of %s"
                    % (short(a), short(b)), where)
        else:
            rep.undec("%s: joined %s / %s" % (name, short(a), short(b)))
        return
    ca, cb = {c for _, c in k}, {c for _, c in kd}
    if ca == cb:
        rep.ok("%s: parts and rows joined operand by operand" % name, where)
    elif ca < cb or cb < ca:
        rep.bad("join-order", name, "some operands contribute parts without rows or rows without parts", where)
    else:
        rep.ok("%s: parts and rows joined over one sequence" % name, where)


def edits(p, rep, C, c, f, name):
    i, paths = run(p, c, f, ResultPolicy(), rep)
    selft = mk("param", f.pos[0])
    for x in paths:
        if x.kind == "raise":
            continue
        vk, dk = [], []
        for e in x.events:
            if e.kind == "store":
                k = C(i.reify(e.extra[0], x.state))
                b = i.reify(e.term, x.state)
                v = C(i.reify(e.extra[1], x.state))
                if vertex_src(b, selft):
                    vk.append((k, e.where))
                elif data_src(b, selft) and b.op == "attr":
                    dk.append((k, e.where))
                    check_row(rep, name, e.where, v, mk("attr", b, "_fields"))
        for k, w in vk:
            if not dk:
                continue
            if any(k is q for q, _ in dk):
                rep.ok("%s: part and row replaced at one index" % name, w)
            elif any(contains(q, k) or contains(k, q) or (is_const(q) and k.op == "param") for q, _ in dk):
                rep.bad("wrong-row", name, "part %s is replaced but row %s" % (short(k), short(dk[0][0])), w)


def ctor(p, rep, C, c):
    """parts and rows of a geometry built from single geometries come from one sequence"""
    f = c.lookup("__init__")
    if f is None:
        return
    name = "%s.__init__" % c.name
    i, paths = run(p, c, f, ResultPolicy(), rep)
    self_ = mk("param", f.pos[0])
    for x in paths:
        if x.kind != "return":
            continue
        cols = []
        for e in x.events:
            if e.kind == "mcall":
                t = C(i.reify(e.term, x.state))
                if t.op == "mcall" and t.args[1] == "updated" and t.args[2]:
                    for y in walk(t.args[2][0][1]):
                        if y.op == "kv":
                            k = seq_keys(y.args[1])
                            if k:
                                cols.append((k, e.where))
                                same_name(rep, name, e.where, y.args[0], y.args[1])
        vt = x.state.attrs.get((self_, "_vertices"))
        if not cols or vt is None:
            continue
        vt = C(i.reify(vt, x.state))
        ks = None
        for y in walk(vt):
            if y.op in ("list", "gen"):
                ks = seq_keys(y)
                if ks:
                    break
        if not ks:
            continue
        for kd, where in cols:
            a, b = {s for s, _ in ks}, {s for s, _ in kd}
            if len(a) == 1 and len(b) == 1:
                s1, s2 = a.pop(), b.pop()
                f1, f2 = any(cs for _, cs in ks), any(cs for _, cs in kd)
                if s1 is s2 and not f1 and not f2:
                    rep.ok("%s: one row per part in order" % name, where)
                elif s1 is s2 and f1 != f2:
                    rep.bad("join-order", name, "parts and rows are filtered differently", where)
                elif contains(s1, s2) or contains(s2, s1):
                    rep.bad("join-order", name, "parts are taken from %s, rows from %s" % (short(s1), short(s2)), where)
                else:
                    rep.undec("%s: %s / %s" % (name, short(s1), short(s2)))


# ------------------------------------------------------------------ shapefile attributes
def shape_part(p, rep, C):
    m = p.modules.get(V + "_shp")
    if m is None:
        return
    for f in m.funcs.values():
        if not f.name.startswith("ogr"):
            continue
        rep.fn(f.name)
        i, paths = run(p, None, f, ResultPolicy(), rep)
        for x in paths:
            for e in x.events:
                if e.kind == "store":
                    k, v = C(i.reify(e.extra[0], x.state)), C(i.reify(e.extra[1], x.state))
                    names = [y.args[0].args[2][0][1] for y in walk(k) if y.op == "mcall" and
                             y.args[1] in ("GetName", "GetNameRef") and y.args[0].op == "mcall" and
                             y.args[0].args[1] == "GetFieldDefn" and y.args[0].args[2]]
                    vals = [y.args[2][0][1] for y in walk(v) if y.op == "mcall" and y.args[1] == "GetField" and y.args[2]]
                    if names and vals:
                        if names[0] is vals[0]:
                            rep.ok("%s: attribute read at the index of its name" % f.name, e.where)
                        elif cnt(names[0]) is not None and cnt(vals[0]) is not None and vals[0] not in (k,):
                            rep.bad("value-under-wrong-field", f.name, "the value of field %s is stored under the name of "
                                    "field %s" % (short(vals[0]), short(names[0])), e.where)
                    fd = [y for y in walk(v) if y.op == "elem"]
                    if k.op in ("fold", "item", "phi", "mcall", "bin") and v.op == "elem":
                        if contains(k, v):
                            rep.ok("%s: stored name made from its own key" % f.name, e.where)
                elif e.kind == "mcall":
                    t = C(i.reify(e.term, x.state))
                    if t.op == "mcall" and t.args[1] == "SetField" and len(t.args[2]) == 2:
                        k, v = t.args[2][0][1], t.args[2][1][1]
                        kd = idx_of(k)
                        vd = idx_of(v)
                        if kd and vd:
                            if kd == vd:
                                rep.ok("%s: attribute written under its own name" % f.name, e.where)
                            else:
                                rep.bad("value-under-wrong-field", f.name, "the value of field %s is written under the "
                                        "name of field %s" % (short(list(vd)[0]), short(list(kd)[0])), e.where)


def idx_of(t):
    return {y.args[2][0][1] for y in walk(t) if y.op == "mcall" and y.args[1] in ("GetFieldDefn",) and y.args[2]}


def cnt(t):
    """is t a counter or a constant offset of one"""
    if t.op in ("elem", "idx") or is_const(t):
        return t
    if t.op == "bin" and any(cnt(x) is not None for x in t.args[1:] if isinstance(x, T)):
        return t
    return None


def check():
    rep = Report("C17", RULE)
    rep.minimum = 15
    rep.assumptions = ["OGR returns features and fields in one fixed order"]
    p = Program()
    C = Canon()
    table_part(p, rep, C)
    geometry_part(p, rep, C)
    g = p.modules["karta.vector.geometry"].classes
    for n in ("Line", "Polygon", "Multipoint"):
        f = g[n].lookup("__getitem__") if n in g else None
        if f is not None and f.pos:
            protocol(p, rep, g[n], f, "%s.__getitem__" % n)
    shape_part(p, rep, C)
    return rep

