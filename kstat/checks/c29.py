"""C29: affine transforms, shifts and rotations move every vertex by the matrix."""
from ..finite import Arr, Fault, Unknown
from ..interp import Interp
from ..loader import Program
from ..poly import ratom
from ..report import Report
from ..results import ResultPolicy
from ..symev import SymEval, Funs, PI, equal, isnum, num
from ..terms import T, mk, const, is_const, cval, fmt, arg, walk, contains

TECHNIQUE = "path-wise value terms of the transforms resolved to normal forms on symbolic vertices and matrices"
RULE = ("apply_transform, shift and rotate of every geometry class are followed path by path, and the vertices of the geometry they "
        "return are resolved to normal forms for symbolic vertices of rank two and three and for symbolic matrices of both "
        "shapes: every vertex must be the matrix applied to the old one (two-dimensional matrices keep z, points of rank two lie "
        "at z = 0 and stay of rank two), the holes of a polygon and the parts of a multipart must receive a matrix of the same "
        "effect, a shift adds the vector and keeps z, a rotation turns by the given degrees about the origin.")
MOD = "karta.vector.geometry"
SINGLE = ("Point", "Line", "Polygon", "Multipoint")
PARTS = ("Multiline", "Multipolygon")
NV = 3


COPIES = tuple(mk(o, n) for o in ("ext", "builtin") for n in ("list", "tuple"))


class P29(ResultPolicy):
    max_depth = 6
    no_inline = ("__init__", "vertices", "get_vertices", "vertex", "get_vertex")

    def inline(self, interp, f, recv, depth):
        return f.module.name == MOD and f.name not in self.no_inline


class Model(object):
    def __init__(self, point, rank, shape):
        self.funs = Funs()
        self.point, self.rank, self.shape = point, rank, shape
        self.funs.signed = {"thetad", "ox", "oy", "sx", "sy"} | {"%s%d%d" % (c, i, j) for c in "mp" for i in range(3) for j in range(4)}
        self.theta = ratom("thetad")
        self.o = (ratom("ox"), ratom("oy"))
        self.s = (ratom("sx"), ratom("sy"))

    def v(self, i, j):
        return ratom("p%d%d" % (i, j))

    def m(self, i, j):
        return ratom("m%d%d" % (i, j))

    def coords(self):
        return Arr.of((NV, self.rank), self.v)

    def matrix(self):
        return Arr.of(self.shape, self.m)

    def me(self, t):
        return isinstance(t, T) and t.op == "param" and t.args[0] == "self"

    def call(self, ev, t):
        if t.op == "attr":
            b, n = t.args
            if n == "T":
                a = ev.lift(ev.ev(b))
                if isinstance(a, Arr):
                    return a.T()
            if self.me(b):
                if n == "rank":
                    return self.rank
                if self.point:
                    if n in ("x", "y", "z"):
                        return self.v(0, "xyz".index(n))
                    if n in ("_vertex", "coordsxyz" if self.rank == 3 else "_vertex"):
                        return tuple(self.v(0, j) for j in range(self.rank))
                elif n in ("_vertices", "coordinates"):
                    return self.coords()
            if b.op == "attr" and b.args[1] == "_vertices" and self.me(b.args[0]) and n == "rank":
                return self.rank
        if t.op == "mcall":
            b, n = t.args[0], t.args[1]
            c = arg(t, "crs", 0)
            plain = c is None or is_const(c) and cval(c) is None or c is mk("attr", mk("param", "self"), "crs")
            if self.me(b) and plain:
                if n in ("vertices", "get_vertices") and not self.point:
                    return self.coords()
                if n in ("vertex", "get_vertex") and self.point:
                    return tuple(self.v(0, j) for j in range(self.rank))
            if b.op == "attr" and b.args[1] == "_vertices" and self.me(b.args[0]) and n in ("asarray", "vectorize"):
                return self.coords() if n == "asarray" else self.coords().T()
        raise NotImplementedError

    def env(self):
        return {mk("param", "M"): self.matrix(), mk("param", "shift_vector"): self.s,
                mk("param", "thetad"): self.theta, mk("param", "origin"): self.o}

    def moved(self, i, m=None):
        p = [self.v(i, j) for j in range(self.rank)]
        m = m or self.m
        if self.rank == 2:
            p.append(num(0))
        if self.shape == (2, 3):
            r = [m(k, 0) * p[0] + m(k, 1) * p[1] + m(k, 2) for k in (0, 1)] + [p[2]]
        else:
            r = [m(k, 0) * p[0] + m(k, 1) * p[1] + m(k, 2) * p[2] + m(k, 3) for k in (0, 1, 2)]
        return r[:self.rank]

    def shifted(self, i):
        p = [self.v(i, j) for j in range(self.rank)]
        return [p[0] + self.s[0], p[1] + self.s[1]] + p[2:]

    def turned(self, ev, i):
        p = [self.v(i, j) for j in range(self.rank)]
        a = self.theta * PI / num(180)
        c, s = ev.fun("cos", a), ev.fun("sin", a)
        x, y = p[0] - self.o[0], p[1] - self.o[1]
        return [c * x - s * y + self.o[0], s * x + c * y + self.o[1]] + p[2:]


def full(m):
    """a matrix of either shape as a dense 3 by 4"""
    if m.shape == (3, 4):
        return m
    if m.shape == (2, 3):
        z, o = num(0), num(1)
        return Arr.of((3, 4), lambda i, j: (m.at(i, j) if j < 2 else m.at(i, 2) if j == 3 else z) if i < 2
                      else (o if j == 2 else z))
    return None


def expected_matrix(ev, m, kind):
    if kind == "apply_transform":
        return full(m.matrix())
    z, o = num(0), num(1)
    if kind == "shift":
        rows = [[o, z, z, m.s[0]], [z, o, z, m.s[1]], [z, z, o, z]]
    else:
        a = m.theta * PI / num(180)
        c, s = ev.fun("cos", a), ev.fun("sin", a)
        ox, oy = m.o
        rows = [[c, -s, z, ox - c * ox + s * oy], [s, c, z, oy - s * ox - c * oy], [z, z, o, z]]
    return Arr.of((3, 4), lambda i, j: rows[i][j])


def method(c, n):
    for k in c.mro():
        if hasattr(k, "methods") and n in k.methods:
            return k.methods[n]
    return None


def vertices_of(ev, m, t):
    """the vertices of the returned geometry as a list of rows"""
    names = ("coords", 0) if m.point else ("vertices", 0)
    a = arg(t, *names)
    if a is None and not m.point:
        a = arg(t, "inputs", 0)
    if a is None:
        raise Unknown("vertices of the result")
    v = ev.ev(a)
    if m.point:
        return [ev.elems(v)]
    v = ev.lift(v)
    if isinstance(v, Arr):
        if v.ndim != 2:
            raise Unknown("vertices of %d dimensions" % v.ndim)
        return [[v.at(i, j) for j in range(v.shape[1])] for i in range(v.shape[0])]
    return [ev.elems(r) for r in ev.elems(v)]


def plain(t):
    """t only hands values on: no call that could transform them"""
    return all(x.op in ("attr", "param", "each", "elem", "enter", "list", "tuple", "const", "star", "slice", "idx")
               or x.op == "call" and x.args[0] in COPIES or x in COPIES
               for x in walk(t))


def sub_calls(t):
    """the calls that make the holes or parts of a result: (receiver, name, arguments)"""
    return [x for x in walk(t) if x.op == "mcall" and x.args[1] in ("apply_transform", "shift", "rotate")]


def same_matrix(ev, m, c, want, flat=False):
    """does the call c have the effect of the dense matrix want (on vertices of rank two if flat)?"""
    n = c.args[1]
    if n == "apply_transform":
        v = ev.lift(ev.ev(arg(c, "M", 0)))
        if not isinstance(v, Arr):
            raise Unknown("matrix")
        got = full(v)
        if got is None:
            return "a matrix of shape %s" % (v.shape,)
    elif n == "shift":
        s = ev.elems(ev.ev(arg(c, "shift_vector", 0)))
        z, o = num(0), num(1)
        rows = [[o, z, z, s[0]], [z, o, z, s[1]], [z, z, o, z]]
        got = Arr.of((3, 4), lambda i, j: rows[i][j])
    else:
        th = num(ev.ev(arg(c, "thetad", 0)))
        og = arg(c, "origin", 1)
        ox, oy = [num(x) for x in ev.elems(ev.ev(og))] if og is not None else (num(0), num(0))
        a = th * PI / num(180)
        cc, s = ev.fun("cos", a), ev.fun("sin", a)
        z, o = num(0), num(1)
        rows = [[cc, -s, z, ox - cc * ox + s * oy], [s, cc, z, oy - s * ox - cc * oy], [z, z, o, z]]
        got = Arr.of((3, 4), lambda i, j: rows[i][j])
    for i in range(3):
        for j in range(4):
            if flat and (i == 2 or j == 2):
                continue
            if not isnum(got.at(i, j)):
                raise Unknown("entry of the matrix")
            r = equal(m.funs, num(got.at(i, j)), want.at(i, j))
            if r is None:
                raise Unknown("entry of the matrix")
            if r is False:
                return "entry (%d, %d) differs" % (i, j)
    return None


def feasible(ev, q, cls):
    """does the path belong to this class and shape? None: not known"""
    known = True
    for a, v in q.conds:
        if a.op == "hasattr" and is_const(a.args[1]) or a.op == "hasattr" and isinstance(a.args[1], str):
            continue
        try:
            if bool(ev.truth(a)) != bool(v):
                return False
        except (Unknown, NotImplementedError, TypeError):
            known = None
    return known


def holes(rep, ev, m, q, v, cn, name, want):
    """the holes of a polygon"""
    s = arg(v, "subs", 99)
    tag = "%s.%s" % (cn, name)
    if s is None or s.op in ("list", "tuple") and not s.args:
        return None
    cs = sub_calls(s)
    src = [x for x in walk(s) if x.op in ("elem", "each") and "subs" in fmt(x.args[0])[-60:]]
    if not cs:
        if (src or contains(s, mk("attr", mk("param", "self"), "subs"))) and plain(s):
            rep.bad("holes", tag, "the holes of the polygon are passed on without being transformed", q.where)
            return True
        rep.undec("%s: holes of the result" % tag)
        return True
    for c in cs:
        try:
            w = same_matrix(ev, m, c, want, m.rank == 2)
        except (Unknown, Fault, NotImplementedError, TypeError, AttributeError, IndexError) as e:
            rep.undec("%s: matrix of the holes (%s)" % (tag, str(e)[:50]))
            continue
        if w:
            rep.bad("holes", tag, "the holes are not transformed like the outline: %s" % w, q.where)
        else:
            rep.ok("%s holes with %s, rank %d" % (tag, m.shape, m.rank), q.where)
    return True


def single(p, rep, c, cn, name):
    f = method(c, name)
    if f is None:
        rep.undec("%s.%s not found" % (cn, name))
        return
    rep.fn(f.qual)
    it = Interp(p, P29())
    paths = [q for q in it.run(f, c) if q.kind == "return" and q.value is not None]
    shapes = ((2, 3), (3, 4)) if name == "apply_transform" else ((2, 3),)
    for rank in (2, 3):
        for shape in shapes:
            tag = "%s.%s, rank %d%s" % (cn, name, rank, ", matrix %dx%d" % shape if len(shapes) > 1 else "")
            hit, passed = 0, 0
            for q in paths:
                m = Model(cn == "Point", rank, shape)
                ev = SymEval(m.env(), m.call, m.funs)
                ok = feasible(ev, q, c)
                if ok is False:
                    continue
                hit += 1
                v = it.reify(q.value, q.state)
                if not (isinstance(v, T) and v.op == "new"):
                    if isinstance(v, T) and v.op == "param" and v.args[0] == "self":
                        rep.bad("vertices", tag, "the geometry itself is returned, untransformed", q.where)
                    else:
                        rep.undec("%s: result %s" % (tag, fmt(v)[:50]))
                    continue
                try:
                    rows = vertices_of(ev, m, v)
                except Fault as e:
                    if ok:
                        rep.bad("fault", tag, "the transform fails: %s" % str(e)[:80], q.where)
                    else:
                        rep.undec("%s: %s" % (tag, str(e)[:60]))
                    continue
                except (Unknown, NotImplementedError, AttributeError, TypeError, ValueError, IndexError) as e:
                    rep.undec("%s: %s" % (tag, str(e)[:60]))
                    continue
                verdict(rep, ev, m, q, rows, tag, name, ok)
                if cn == "Polygon":
                    hs = holes(rep, ev, m, q, v, cn, name, expected_matrix(ev, m, name))
                    if hs is None and not nosubs(q):
                        rep.bad("holes", tag, "the holes of the polygon are not passed on", q.where)
            if not hit:
                rep.undec("%s: no path" % tag)


def nosubs(q):
    """the path knows that the polygon has no holes (or no such attribute)"""
    for a, v in q.conds:
        if a.op == "hasattr" and "subs" in [x if isinstance(x, str) else cval(x) if is_const(x) else None for x in a.args[1:]]:
            return not v
        if "subs" in fmt(a):
            return True
    return False


def verdict(rep, ev, m, q, rows, tag, name, sure):
    n = 1 if m.point else NV
    bad = rep.bad if sure else (lambda rule, con, msg, where: rep.undec("%s: %s (path not decided)" % (con, msg)))
    if len(rows) != n:
        bad("vertices", tag, "%d vertices become %d" % (n, len(rows)), q.where)
        return
    for i, r in enumerate(rows):
        if name == "apply_transform":
            want = m.moved(i)
        elif name == "shift":
            want = m.shifted(i)
        else:
            want = m.turned(ev, i)
        if len(r) != len(want):
            bad("rank", tag, "vertices of rank %d become rank %d" % (m.rank, len(r)), q.where)
            return
        for k, (g, w) in enumerate(zip(r, want)):
            if not isnum(g):
                rep.undec("%s: coordinate %s" % (tag, "xyz"[k]))
                return
            e = equal(m.funs, num(g), w)
            if e is False:
                bad("vertices", tag, "coordinate %s of a vertex is not that of the transformed vertex" % "xyz"[k], q.where)
                return
            if e is None:
                rep.undec("%s: coordinate %s has another form" % (tag, "xyz"[k]))
                return
    rep.ok("%s: every coordinate" % tag, q.where)


def parts(p, rep, c, cn, name):
    f = method(c, name)
    if f is None:
        rep.undec("%s.%s not found" % (cn, name))
        return
    rep.fn(f.qual)
    it = Interp(p, P29())
    for shape in ((2, 3), (3, 4)):
        tag = "%s.%s, matrix %dx%d" % ((cn, name) + shape)
        hit = 0
        for q in it.run(f, c):
            if q.kind != "return" or q.value is None:
                continue
            m = Model(False, 2, shape)
            ev = SymEval(m.env(), m.call, m.funs)
            ok = feasible(ev, q, c)
            if ok is False:
                continue
            hit += 1
            v = it.reify(q.value, q.state)
            cs = sub_calls(v)
            es = [x for x in walk(v) if x.op == "each" and contains(x, mk("param", "self"))]
            if not cs:
                if es and ok:
                    rep.bad("parts", tag, "the parts are passed on without being transformed", q.where)
                else:
                    rep.undec("%s: parts of the result" % tag)
                continue
            for x in cs:
                try:
                    w = same_matrix(ev, m, x, full(m.matrix()))
                except (Unknown, Fault, NotImplementedError, TypeError, AttributeError, IndexError) as e:
                    rep.undec("%s: matrix of the parts (%s)" % (tag, str(e)[:50]))
                    continue
                if w and ok:
                    rep.bad("parts", tag, "the parts are not moved by the matrix: %s" % w, q.where)
                elif w:
                    rep.undec("%s: %s" % (tag, w))
                else:
                    rep.ok("%s: every part" % tag, q.where)
            for x in es:
                if x.args[2] and any(y.op != "enter" for y in conds(x.args[2])):
                    rep.undec("%s: parts under a condition" % tag)
        if not hit:
            rep.undec("%s: no path" % tag)


def conds(c):
    return [a[0] if isinstance(a, tuple) else a for a in (c.args if isinstance(c, T) else c)]


def check():
    rep = Report("C29", RULE)
    rep.minimum = 12
    p = Program()
    mod = p.modules.get(MOD)
    for cn in SINGLE + PARTS:
        c = mod.classes.get(cn) if mod is not None else None
        if c is None:
            rep.undec("class %s not found" % cn)
            continue
        for n in ("apply_transform", "shift", "rotate"):
            if cn in PARTS and n != "apply_transform":
                continue
            try:
                (parts if cn in PARTS else single)(p, rep, c, cn, n)
            except Exception as e:
                rep.undec("%s.%s: %s %s" % (cn, n, type(e).__name__, str(e)[:60]))
    return rep
