"""C23: point-in-polygon counts each boundary crossing once."""
from fractions import Fraction
from itertools import product

from ..interp import Interp, Policy
from ..loader import Program
from ..poly import Norm, ratom, rconst
from ..report import Report
from ..results import returned
from ..terms import T, mk, walk, is_const, cval, arg, children, const

TECHNIQUE = "sign-domain enumeration of the loop body's transition relation, edge indices by polynomial normal form"
RULE = ("The update of the crossing counter for one edge is read off the loop body as guarded cases; every guard is "
        "evaluated in the sign domain (signs of both end points relative to the point, sign of the side product). For "
        "every sign combination the update must be the one of a half-open vertical interval: the same convention at "
        "both ends, horizontal and missed edges zero, upward and downward crossings counted on opposite sides with "
        "opposite signs (or toggled), and the edges must be those of the closed ring, each once. The azimuth variant "
        "must sum differences reduced to half a turn between successive vertices around the whole ring.")
MOD = "karta.vector.contains"
AX = {"x": 0, "y": 1, "lon": 0, "lat": 1}
GETTERS = {"getX": 0, "getY": 1}


class Pol(Policy):
    max_depth = 3
    max_states = 3000

    def inline(self, i, f, recv, d):
        return f.module.name == MOD


class Odd(Exception):
    pass


class Ring(object):
    """classifies coordinate terms of one loop: index (0,1) + vertex"""
    def __init__(self, f, path, fold):
        self.path = path
        self.it = fold.args[0]
        self.px, self.py = [mk("param", x) for x in f.pos[:2]]
        self.poly = mk("param", f.pos[2])
        self.elems = {t for t in walk(fold) if t.op == "elem" and t.args[0] is self.it}
        self.folds = {v.args[2]: v for v in path.state.env.values()
                      if isinstance(v, T) and v.op == "fold" and v.args[0] is self.it}
        self.sets = [e for e in path.events if e.kind == "setattr" and e.extra]
        self.idx = Norm(self.ixatom)
        self.num = Norm(self.atom)
        self.bad_axis = []

    def ixatom(self, t):
        if t.op == "elem" and t.args[0] is self.it:
            return "i"
        if t.op == "attr" and t.args[0] is self.poly and t.args[1] == "rank":
            return "rank"
        if (t.op == "attr" and t.args[0] is self.poly and t.args[1] == "length") or \
                (t.op == "len" and t.args[0] is self.poly):
            return "n"
        return None

    def vertex(self, t):
        """(axis, vertex name) of a term reading the ring's coordinates"""
        if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[0] is self.poly and t.args[0].args[1] == "coords":
            e = self.idx(t.args[1])
            rank = ratom("rank")
            for k, name in self.candidates():
                for axis in (0, 1, 2):
                    if e.same(k * rank + rconst(axis)):
                        return axis, name
            return None
        if t.op == "mcall" and t.args[0] is self.poly and t.args[1] in GETTERS and t.args[2]:
            e = self.idx(t.args[2][0][1])
            for k, name in self.candidates():
                if e.same(k):
                    return GETTERS[t.args[1]], name
        return None

    def candidates(self):
        i, n = ratom("i"), ratom("n")
        out = [(i, "i"), (i + rconst(1), "i+1"), (i - rconst(1), "i-1"), (rconst(0), "0"), (n - rconst(1), "n-1"),
               (rconst(1), "1"), (rconst(-1), "-1"), (i + rconst(2), "i+2"), (n, "n")]
        for e in self.elems:
            for nn in (mk("attr", self.poly, "length"), mk("len", self.poly)):
                nxt = mk("bin", "%", mk("bin", "+", e, const(1)), nn)
                out.append((self.idx(nxt), "i+1 mod n"))
        return out

    def component(self, t):
        """(axis, 'p'|vertex name|('lv', term)) of a coordinate term, or None"""
        if t is self.px:
            return 0, "p"
        if t is self.py:
            return 1, "p"
        v = self.vertex(t)
        if v is not None:
            return v
        if t.op == "attr" and t.args[1] in AX:
            b = t.args[0]
            ax = AX[t.args[1]]
            if b.op in ("call", "new") and len(b.args[1]) == 2:
                return self.component(b.args[1][ax][1])
            if b.op == "lv" and b in self.folds:
                return ax, ("lv", b)
        if t.op == "lv" and t in self.folds:
            c = self.component(self.folds[t].args[3])
            if c is not None:
                return c[0], ("lv", t)
        return None

    def components(self, t):
        """the coordinate components a condition depends on"""
        out, stack = set(), [t]
        while stack:
            x = stack.pop()
            k = self.component(x)
            if k is not None:
                out.add(k)
            else:
                stack.extend(children(x))
        return out

    def atom(self, t):
        c = self.component(t)
        if c is not None and c[0] in (0, 1):
            ax, w = c
            if isinstance(w, tuple):
                return "%s%d" % ("xy"[ax], id(w[1]))
            return "%s_%s" % ("xy"[ax], w)
        return None

    def carried(self, base):
        """(initial vertex, [vertex after the update per case]) of a loop-carried vertex"""
        f = self.folds[base]
        init = f.args[3]
        if init.op in ("call", "new") and len(init.args[1]) == 2:
            cs = [self.component(x[1]) for x in init.args[1]]
        else:
            cs = [self.component(init)]
        ups = []
        for conds, val in f.args[4]:
            if val.op in ("call", "new") and len(val.args[1]) == 2:
                ups.append([self.component(x[1]) for x in val.args[1]])
            elif self.component(val) is not None:
                ups.append([self.component(val)])
            elif val is base:
                ups.append("same")
            else:
                s = [(AX.get(e.extra[0]), self.component(e.extra[1]), e) for e in self.sets if e.term is val]
                if not s:
                    raise Odd("update of a carried vertex")
                for a, c, e in s:
                    if c is None or a is None:
                        raise Odd("update of a carried vertex")
                    ups.append([c] if c[0] == a else [(9, c[1])])
        return cs, ups


def sgn(x):
    return (x > 0) - (x < 0)


class Signs(object):
    """three-valued evaluation of conditions under an assignment of signs"""
    def __init__(self, ring, names, env, close):
        self.r = ring
        self.names = names      # role -> (xatom, yatom)
        self.env = env
        self.close = close
        px, py = ratom("x_p"), ratom("y_p")
        ax, ay = map(ratom, names["a"])
        bx, by = map(ratom, names["b"])
        self.forms = [("ax", ax - px), ("ay", ay - py), ("bx", bx - px), ("by", by - py), ("dx", bx - ax),
                      ("dy", by - ay), ("cr", (ax - px) * (by - py) - (ay - py) * (bx - px))]
        self.memo = {}

    def sign(self, q):
        """sign of a rational function of the coordinates, or None"""
        n = self.psign(q.n)
        d = self.psign(q.d)
        if n is None or d is None or d == 0:
            return None
        return n * d

    def psign(self, poly):
        from ..poly import Rat
        q = Rat(poly)
        c = q.const()
        if c is not None:
            return sgn(c)
        for (k1, f1) in self.forms:
            s = self.match(q, f1)
            if s is not None:
                return s * self.env[k1] if self.env[k1] is not None else None
        for (k1, f1), (k2, f2) in product(self.forms, self.forms):
            s = self.match(q, f1 * f2)
            if s is not None:
                a, b = self.env[k1], self.env[k2]
                return None if a is None or b is None else s * a * b
        return None

    def match(self, q, f):
        (m, c) = next(iter(f.n.items()))
        k = q.n.get(m)
        if k is None:
            return None
        r = Fraction(k) / c
        return sgn(r) if q.same(f * rconst(r)) else None

    def truth(self, t):
        if is_const(t):
            return bool(cval(t))
        if t.op == "not":
            v = self.truth(t.args[0])
            return None if v is None else not v
        if t.op in ("and", "or"):
            vs = [self.truth(x) for x in t.args]
            if t.op == "and":
                return False if False in vs else (None if None in vs else True)
            return True if True in vs else (None if None in vs else False)
        if t.op == "cmp" and t.args[0] in ("==", "<", "<="):
            o, a, b = t.args
            if o == "==" and all(x.op in ("cmp", "not", "and", "or") for x in (a, b)):
                u, v = self.truth(a), self.truth(b)
                return None if u is None or v is None else u == v
            c = self.closing(t)
            if c is not None:
                return c
            s = self.sign(self.r.num(b) - self.r.num(a))
            if s is None:
                return None
            return s == 0 if o == "==" else (s > 0 if o == "<" else s >= 0)
        return None

    def closing(self, t):
        """truth of tests of the loop index against the last index"""
        d = self.r.idx(t.args[2]) - self.r.idx(t.args[1])
        if not d.atoms() <= {"i", "n"} or not d.atoms():
            return None
        left = ratom("n") - rconst(1) - ratom("i")     # zero on the closing edge, positive before
        for k in (1, -1):
            rest = (d - left * rconst(k)).const()
            if rest is not None:
                # d = k*left + rest
                if self.close:
                    s = sgn(rest)
                else:
                    lo = k + rest if k > 0 else None
                    hi = -1 + rest if k < 0 else None
                    s = 1 if lo is not None and lo > 0 else (-1 if hi is not None and hi < 0 else None)
                    if s is None and t.args[0] == "<=" and lo is not None and lo >= 0:
                        return True
                    if s is None and t.args[0] == "<" and hi is not None and hi <= 0:
                        return False
                if s is None:
                    return None
                return s == 0 if t.args[0] == "==" else (s > 0 if t.args[0] == "<" else s >= 0)
        return None


def assignments():
    for ax, ay, bx, by in product((-1, 0, 1), repeat=4):
        # side product A x B = ax*by - ay*bx
        u, v = ax * by, -ay * bx
        poss = {0} if u == v == 0 else ({sgn(u + v)} if u * v >= 0 else {-1, 0, 1})
        # collinear overlaps: zero products force signs only as above
        for cr in sorted(poss):
            dy = sgn(by - ay) if by != ay or ay == 0 else None
            dx = sgn(bx - ax) if bx != ax or ax == 0 else None
            yield {"ax": ax, "ay": ay, "bx": bx, "by": by, "cr": cr, "dx": dx, "dy": dy}


def roles(ring, fold):
    """the carried/previous vertex 'a', the next vertex 'b' and edge coverage facts"""
    cases = fold.args[4]
    comps = {}
    for conds, val in cases:
        for c, pol in conds:
            for k in ring.components(c):
                if k[1] != "p":
                    comps.setdefault(k[1], set()).add(k[0])
    return comps


def increments(fold, val):
    lv = fold.args[2]
    if val is lv:
        return 0
    if val.op == "bin" and val.args[0] in ("+", "-") and val.args[1] is lv and is_const(val.args[2]):
        k = cval(val.args[2])
        if isinstance(k, (int, float)):
            return k if val.args[0] == "+" else -k
    if val.op == "bin" and val.args[0] == "+" and val.args[2] is lv and is_const(val.args[1]):
        return cval(val.args[1])
    if val.op == "not" and val.args[0] is lv:
        return "toggle"
    if val.op == "bin" and val.args[0] == "-" and is_const(val.args[1]) and cval(val.args[1]) == 1 and val.args[2] is lv:
        return "toggle"
    if val.op == "bin" and val.args[0] == "^" and val.args[1] is lv and is_const(val.args[2]) and cval(val.args[2]) == 1:
        return "toggle"
    if val.op == "un" and val.args[0] == "-" and val.args[1] is lv:
        return "negate"
    return None


def verdict_of(t, fold):
    """how the returned value depends on the counter: 'nonzero', 'odd', 'self' or another description"""
    if t is fold:
        return "self"
    if t.op == "not" and t.args[0].op == "cmp" and t.args[0].args[0] == "==":
        ab = t.args[0].args[1:]
        if fold in ab and any(is_const(x) and cval(x) == 0 for x in ab):
            return "nonzero"
        for x in ab:
            if x.op == "bin" and x.args[0] == "%" and x.args[1] is fold and is_const(x.args[2]) and cval(x.args[2]) == 2 \
                    and any(is_const(y) and cval(y) == 0 for y in ab):
                return "odd"
    if t.op == "call" and t.args[0].op in ("builtin", "ext") and t.args[0].args[0] == "bool":
        return verdict_of(t.args[1][0][1], fold) if t.args[1][0][1] is not fold else "nonzero"
    if t.op == "cmp" and t.args[0] == "==":
        for x, y in (t.args[1:], t.args[:0:-1]):
            if x.op == "bin" and x.args[0] == "%" and x.args[1] is fold and is_const(x.args[2]) and \
                    cval(x.args[2]) == 2 and is_const(y) and cval(y) == 1:
                return "odd"
    if t.op == "bin" and t.args[0] == "%" and t.args[1] is fold and is_const(t.args[2]) and cval(t.args[2]) == 2:
        return "odd"
    if t.op == "cmp" and t.args[0] in ("<", "<=") and fold in t.args[1:]:
        return "one-sided"
    if t.op == "cmp" and t.args[0] == "==" and fold in t.args[1:] and \
            any(is_const(x) and cval(x) not in (0, False) for x in t.args[1:]):
        return "one-sided"
    return None


def planar(p, rep):
    f = p.modules[MOD].funcs.get("contains") if MOD in p.modules else None
    if f is None:
        return
    rep.fn(f.qual)
    paths = [x for x in Interp(p, Pol()).run(f, None) if x.kind == "return" and x.value is not None]
    for path in paths:
        folds = [t for t in walk(path.value) if t.op == "fold"]
        value = path.value
        if not folds and is_const(value):
            dep = [(c, pol) for c, pol in path.conds if any(t.op == "fold" for t in walk(c))]
            if len(dep) == 1 and cval(value) in (True, False):
                c, pol = dep[0]
                value = c if pol == bool(cval(value)) else mk("not", c)
                folds = [t for t in walk(c) if t.op == "fold"]
        if not folds:
            if not is_const(path.value):
                rep.undec("%s: result without a loop counter" % f.qual)
            continue
        if len(folds) != 1:
            rep.undec("%s: nested loops" % f.qual)
            continue
        try:
            one(f, path, folds[0], rep, value)
        except Odd as e:
            rep.undec("%s: %s" % (f.qual, e))


def bound(ring):
    """(lo, hi) of range(), normalised"""
    it = ring.it
    if it.op == "call" and it.args[0].op in ("builtin", "ext") and it.args[0].args[0] in ("range", "xrange", "builtins.range"):
        a = [x[1] for x in it.args[1]]
        if len(a) == 1:
            return rconst(0), ring.idx(a[0])
        if len(a) == 2:
            return ring.idx(a[0]), ring.idx(a[1])
    return None, None


def edges(f, ring, rep, where):
    """names the two end points of the edge in each iteration; reports edges that are missed"""
    lo, hi = bound(ring)
    if lo is None:
        raise Odd("iteration is not over a range")
    lo = lo.const()
    hi = (hi - ratom("n")).const()
    if lo is None or hi is None:
        raise Odd("range of the loop")
    return lo, hi


def one(f, path, fold, rep, value):
    ring = Ring(f, path, fold)
    where = path.where
    comps = roles(ring, fold)
    lo, hi = edges(f, ring, rep, where)
    carried = [k for k in comps if isinstance(k, tuple)]
    direct = {k for k in comps if not isinstance(k, tuple)}
    for t in walk(fold):
        if t.op == "cmp" and t.args[0] == "==":
            d = ring.idx(t.args[2]) - ring.idx(t.args[1])
            if d.atoms() == {"i", "n"}:
                for k in (1, -1):
                    rest = (d - (ratom("n") - rconst(1) - ratom("i")) * rconst(k)).const()
                    if rest:
                        rep.bad("edge", f.qual, "the ring is closed at iteration n%+d instead of n-1" % (-1 + k * rest), where)
                        return
        if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] == "coords" and ring.vertex(t) is None:
            e = ring.idx(t.args[1])
            if e.atoms() <= {"i", "n"} and "i" in e.atoms():
                rep.bad("stride", f.qual, "vertices are read at a fixed stride whatever the rank of the coordinates (%s)" % t.args[1], where)
                return
    # ---- which vertices the edge connects
    if carried:
        inits, ups = set(), set()
        for k in carried:
            cs, us = ring.carried(k[1])
            if None in cs:
                raise Odd("initial vertex")
            want = 0
            for c in cs:
                inits.add(c[1])
            if len(cs) == 2 and [c[0] for c in cs] != [0, 1]:
                rep.bad("axis", f.qual, "the first vertex is read as (%s)" % ", ".join("xy?"[min(c[0], 2)] for c in cs), where)
                return
            for u in us:
                if u == "same":
                    ups.add("same")
                    continue
                if None in u:
                    raise Odd("next vertex")
                if any(c[0] == 9 for c in u):
                    rep.bad("axis", f.qual, "a vertex coordinate is assigned to the other axis", where)
                    return
                ups |= {c[1] for c in u}
        if len(inits) != 1:
            raise Odd("initial vertex")
        init = inits.pop()
        if "same" in ups:
            if ups == {"same"}:
                rep.bad("edge", f.qual, "the start of the edge never advances from vertex %s" % init, where)
                return
            raise Odd("start of the edge advances on some paths only")
        nxt = ups
        if not direct <= nxt | {init}:
            rep.bad("edge", f.qual, "the edge ends at vertex %s but the next edge starts at %s" % (
                sorted(direct - nxt), sorted(nxt)), where)
            return
    else:
        init, nxt = None, None
        if direct == {"0", "i+1"} or direct == {"0", "i+1 mod n"}:
            rep.bad("edge", f.qual, "every edge starts at vertex 0", where)
            return
    # polynomial atoms of both ends, for the closing edge and the others
    for close in (False, True):
        if carried:
            if len(carried) == 1 and ring.folds[carried[0][1]].args[3].op in ("call", "new"):
                k = id(carried[0][1])
                a = ("x%d" % k, "y%d" % k)
            else:
                byaxis = {min(comps[k]): k for k in carried}
                if set(byaxis) != {0, 1}:
                    raise Odd("carried coordinates")
                a = ("x%d" % id(byaxis[0][1]), "y%d" % id(byaxis[1][1]))
            bs = direct & nxt
        else:
            bs = set(direct)
            if bs == {"i", "i+1 mod n"}:
                a, bs = ("x_i", "y_i"), {"i+1 mod n"}
            elif bs == {"i", "i+1", "0"}:
                a, bs = ("x_i", "y_i"), {"i+1", "0"}
            elif bs == {"i", "i+1"}:
                a, bs = ("x_i", "y_i"), {"i+1"}
            elif bs == {"i-1", "i"}:
                a, bs = ("x_i-1", "y_i-1"), {"i"}
            else:
                raise Odd("vertices %s" % sorted(bs))
        # which b is used on this kind of edge
        used = set()
        probe = Signs(ring, {"a": a, "b": ("x_i+1", "y_i+1")}, {}, close)
        for conds, val in fold.args[4]:
            if any(isinstance(c, T) and c.op == "cmp" and probe.closing(c) is not None and
                   probe.closing(c) != pol for c, pol in conds):
                continue
            for c, pol in conds:
                used |= {k[1] for k in ring.components(c) if k[1] in bs}
        if not used:
            rep.bad("edge", f.qual, "the %s edge of the ring has no effect on the count" % ("closing" if close else "inner"),
                    where)
            return
        if len(used) > 1:
            raise Odd("several end vertices %s" % sorted(used))
        b = used.pop()
        if b == "n":
            rep.bad("edge", f.qual, "a vertex past the end of the ring is read", where)
            return
        # coverage of the ring
        wraps = {"i+1 mod n"} | ({"i+1"} if getters(fold) else set())
        start = init
        good = None
        if (lo, hi) == (0, 0):
            if b in wraps and start in ("0", None):
                good = True
            elif b == "i" and start in ("n-1", "-1"):
                good = True
            elif close:
                good = b == "0" and start in ("0", None)
            else:
                good = b == "i+1" and start in ("0", None)
            if b == "i" and start in (None,):
                good = None
        elif b in wraps or b in ("i", "i+1", "0"):
            good = None
            if hi - lo < 0 and not (b == "i" and lo == 1 and hi == 0 and start == "0"):
                good = False
        if good is None:
            raise Odd("edges from range(%s, n%+d), start %s, end %s" % (lo, hi, start, b))
        if not good:
            rep.bad("edge", f.qual, "the ring's edges are not each used once: edge of iteration i starts at vertex %s "
                    "and ends at vertex %s (%s edge, iterations %s..n%+d)" % (
                        start or "i", b, "closing" if close else "inner", lo, hi - 1), where)
            return
        rep.ok("%s: %s edge joins successive vertices" % (f.qual, "closing" if close else "inner"), where)
        table(f, ring, fold, path, {"a": a, "b": ("x_" + b, "y_" + b)}, close, rep, value)


def getters(fold):
    return any(t.op == "mcall" and t.args[1] in GETTERS for t in walk(fold))


def table(f, ring, fold, path, names, close, rep, value):
    where = path.where
    how = verdict_of(value, fold)
    if how is None:
        raise Odd("dependence of the result on the count")
    res = {}
    for env in assignments():
        s = Signs(ring, names, env, close)
        vals = set()
        for conds, val in fold.args[4]:
            tv = [s.truth(c) if isinstance(c, T) else None for c, pol in conds]
            if any(v is not None and v != pol for v, (c, pol) in zip(tv, conds)):
                continue
            if None in tv:
                # could be an edge-irrelevant condition: find mixed axes
                for v, (c, pol) in zip(tv, conds):
                    if v is None:
                        mixed(f, ring, c, rep, where)
                raise Odd("condition %s" % [str(c)[:80] for v, (c, pol) in zip(tv, conds) if v is None][:1])
            vals.add(increments(fold, val))
        if None in vals:
            raise Odd("update of the counter")
        if len(vals) > 1:
            raise Odd("overlapping cases")
        res[tuple(env[k] for k in ("ax", "ay", "bx", "by", "cr"))] = vals.pop() if vals else 0
    if "negate" in res.values():
        raise Odd("negated counter")
    conv_ok = {}
    for conv in ("lower", "upper"):
        for side in (1, -1):
            conv_ok[conv, side] = fits(res, conv, side, how)
    if any(v is None for v in conv_ok.values()):
        rep.ok("%s: counter update of the %s edge fits a half-open crossing rule in all %d sign combinations" % (
            f.qual, "closing" if close else "inner", len(res)), where)
    else:
        best = min(conv_ok.values(), key=lambda v: v[0])
        rep.bad("crossing", f.qual, "no half-open crossing rule explains the counter update: %s" % best[1], where)
    rep.fn("%s [%d sign combinations]" % (f.qual, len(res)))


def mixed(f, ring, c, rep, where):
    for t in walk(c):
        if t.op == "cmp":
            d = ring.num(t.args[2]) - ring.num(t.args[1])
            at = d.atoms()
            if at and all(k[:2] in ("x_", "y_") or k[:1] in "xy" and k[1:].isdigit() for k in at):
                deg = max(sum(e for _, e in m) for m in d.n) if d.n else 0
                if d.d == {(): 1} and deg == 1 and len({k[0] for k in at}) == 2:
                    rep.bad("axis", f.qual, "a condition compares x with y coordinates: %s" % d, where)
                elif d.d == {(): 1} and deg == 2:
                    rep.bad("side", f.qual, "the side product is not the cross product of the edge and the point: %s" % (
                        names_of(d)), where)


def names_of(d):
    import re
    return re.sub(r"([xy])\d{6,}", r"\1_start", str(d))


def fits(res, conv, side, how):
    """None if the table is that of a crossing rule, else (number of failures, message)"""
    fails = []
    up, down = set(), set()
    for (ax, ay, bx, by, cr), v in res.items():
        if conv == "lower":
            isup, isdown = ay <= 0 < by, by <= 0 < ay
        else:
            isup, isdown = ay < 0 <= by, by < 0 <= ay
        desc = "edge from %s to %s the point's height, point %s of it" % (
            level(ay), level(by), {1: "left", -1: "right", 0: "on the line"}[cr])
        if not isup and not isdown:
            if v != 0:
                fails.append("%s counts %s" % (desc, v))
            continue
        if cr == 0:
            if v != 0:
                (up if isup else down).add(v)
            continue
        want = cr == side if isup else cr == -side
        if want:
            (up if isup else down).add(v)
            if v == 0:
                fails.append("%s is not counted" % desc)
        elif v != 0:
            fails.append("%s counts %s" % (desc, v))
    if not fails:
        if len(up) != 1 or len(down) != 1:
            fails.append("crossings count %s upward and %s downward" % (sorted(map(str, up)), sorted(map(str, down))))
        else:
            u, d = up.pop(), down.pop()
            if u == d == "toggle":
                if how not in ("self", "odd", "nonzero"):
                    fails.append("the result does not follow the toggled flag")
            elif "toggle" in (u, d):
                fails.append("crossings toggle one way and count the other")
            elif how == "odd":
                if u % 2 != 1 or d % 2 != 1:
                    fails.append("crossings count %s and %s but the parity decides" % (u, d))
            elif how in ("nonzero", "self"):
                if u != -d:
                    fails.append("upward crossings count %s, downward ones %s, and any non-zero sum means inside" % (u, d))
            else:
                fails.append("only one sign of the winding number means inside, though rings may run either way")
    return (len(fails), fails[0]) if fails else None


def level(s):
    return {-1: "below", 0: "at", 1: "above"}[s]


# ------------------------------------------------------------------ azimuths

def azimuths(p, rep):
    f = p.modules[MOD].funcs.get("contains_proj") if MOD in p.modules else None
    if f is None:
        return
    rep.fn(f.qual)
    paths = [x for x in Interp(p, Pol()).run(f, None) if x.kind == "return" and x.value is not None]
    outcomes = {}
    for path in paths:
        sums = [t for t in walk(path.value) if t.op == "fold"]
        for c, pol in path.conds:
            sums += [t for t in walk(c) if t.op == "fold"]
        sums = [s for s in sums if is_const(s.args[3]) and cval(s.args[3]) == 0]
        if len(set(sums)) != 1:
            rep.undec("%s: angle sum" % f.qual)
            continue
        fold = sums[0]
        for c, pol in path.conds:
            if contains_fold(c, fold):
                outcomes.setdefault(fold, []).append((c, pol, path.value, path.where))
        if fold in (x for x in walk(path.value)):
            outcomes.setdefault(fold, []).append((path.value, True, const(True), path.where))
        try:
            angle(f, path, fold, rep)
        except Odd as e:
            rep.undec("%s: %s" % (f.qual, e))
    for fold, cs in outcomes.items():
        for c, pol, val, where in cs:
            threshold(f, c, pol, val, fold, rep, where)


def contains_fold(c, fold):
    return any(t is fold for t in walk(c))


def threshold(f, c, pol, val, fold, rep, where):
    if c.op == "not":
        return threshold(f, c.args[0], not pol, val, fold, rep, where)
    if c.op != "cmp" or c.args[0] not in ("<", "<="):
        rep.undec("%s: decision on the angle sum" % f.qual)
        return
    a, b = c.args[1:]
    absd = lambda t: (t.op == "abs" or (t.op == "call" and str(t.args[0]).split(".")[-1] in ("fabs", "abs"))) and contains_fold(t, fold)
    if absd(b) and is_const(a):
        k, big = cval(a), pol
    elif absd(a) and is_const(b):
        k, big = cval(b), not pol
    elif (b is fold and is_const(a)) or (a is fold and is_const(b)):
        rep.bad("winding", f.qual, "only one direction of the full turn means inside", where)
        return
    else:
        rep.undec("%s: decision on the angle sum" % f.qual)
        return
    if not (isinstance(k, (int, float)) and 0 < k < 360):
        rep.bad("winding", f.qual, "the threshold %s does not separate a full turn (360) from none (0)" % k, where)
        return
    if is_const(val) and isinstance(cval(val), bool):
        if cval(val) == big:
            rep.ok("%s: a full turn of the azimuth means inside" % f.qual, where)
        else:
            rep.bad("winding", f.qual, "a full turn of the azimuth is reported as outside", where)
    else:
        rep.undec("%s: returned value" % f.qual)


def azimuth_of(t):
    """the inverse() call whose azimuth (item 0) is t, modulo a normalisation to one turn; (call, normalised)"""
    norm = False
    while True:
        if t.op == "bin" and t.args[0] == "%" and is_const(t.args[2]) and cval(t.args[2]) in (360, 360.0):
            norm = True
            t = t.args[1]
        elif t.op == "bin" and t.args[0] == "+" and is_const(t.args[2]) and norm:
            t = t.args[1]
        elif t.op == "bin" and t.args[0] == "+" and is_const(t.args[1]) and norm:
            t = t.args[2]
        else:
            break
    if t.op == "item" and is_const(t.args[1]) and t.args[0].op == "mcall" and t.args[0].args[1] == "inverse":
        return t.args[0], norm, cval(t.args[1])
    return None, norm, None


def angle(f, path, fold, rep):
    where = path.where
    ring = Ring(f, path, fold)
    lo, hi = edges(f, ring, rep, where)
    lv = fold.args[2]
    cur = prev = None
    deltas = []
    for conds, val in fold.args[4]:
        if val.op == "bin" and val.args[0] == "+" and val.args[1] is lv:
            deltas.append((conds, val.args[2]))
        elif val is lv:
            deltas.append((conds, const(0)))
        else:
            raise Odd("update of the angle sum")
    azs = {}
    for conds, d in deltas:
        for t in [d] + [c for c, _ in conds]:
            for x in walk(t):
                if x.op == "lv" and x in ring.folds:
                    azs.setdefault("prev", set()).add(x)
                c, n, k = azimuth_of(x)
                if c is not None and not any(y.op == "lv" for y in walk(x) if y in ring.folds):
                    azs.setdefault("cur", set()).add((x, c, n, k))
    prevs = azs.get("prev", set())
    for t in walk(fold):
        if t.op == "bin" and t.args[0] == "%" and is_const(t.args[2]) and azimuth_of(t.args[1])[0] is not None and \
                cval(t.args[2]) not in (360, 360.0):
            rep.bad("azimuth", f.qual, "azimuths are reduced modulo %s" % cval(t.args[2]), where)
            return
    if not prevs:
        at = set()
        for x, c, n, k in azs.get("cur", ()):
            a = [y[1] for y in c.args[2]]
            at.add(ring.component(a[2])[1] if len(a) > 3 and ring.component(a[2]) else None)
        if at == {"0", "i+1"}:
            rep.bad("edge", f.qual, "every azimuth difference is taken from vertex 0", where)
            return
    if len(prevs) != 1:
        raise Odd("previous azimuth")
    prev = prevs.pop()
    pf = ring.folds[prev]
    ups = {v for c, v in pf.args[4]}
    if len(ups) != 1:
        raise Odd("advance of the azimuth")
    curt = ups.pop()
    if curt is prev:
        rep.bad("edge", f.qual, "the previous azimuth never advances", where)
        return
    ic, inorm, ik = azimuth_of(pf.args[3])
    cc, cnorm, ck = azimuth_of(curt)
    if ic is None or cc is None:
        raise Odd("azimuths")
    if ik != 0 or ck != 0:
        rep.bad("azimuth", f.qual, "item %s of the inverse solution is used as the azimuth at the point" % (
            ck if ck != 0 else ik), where)
        return
    if inorm != cnorm:
        rep.bad("azimuth", f.qual, "only one of the two azimuths is normalised to one turn", where)
        return
    # the vertices
    vs = []
    for call in (ic, cc):
        a = [x[1] for x in call.args[2]]
        if len(a) < 4:
            raise Odd("arguments of inverse")
        comps = [ring.component(x) for x in a[:4]]
        if None in comps:
            raise Odd("arguments of inverse")
        if [c[0] for c in comps] != [0, 1, 0, 1]:
            rep.bad("axis", f.qual, "x and y are exchanged in a call of inverse", where)
            return
        ends = [comps[0][1], comps[2][1]]
        if [c[1] for c in comps[:2]] != ["p", "p"]:
            if [c[1] for c in comps[2:4]] == ["p", "p"]:
                rep.bad("azimuth", f.qual, "azimuths are taken at the vertices instead of the point", where)
                return
            raise Odd("arguments of inverse")
        if comps[2][1] != comps[3][1]:
            rep.bad("edge", f.qual, "coordinates of different vertices are combined", where)
            return
        vs.append(comps[2][1])
    start, b = vs
    ok = (lo, hi) == (0, 0) and ((b in ("i+1", "i+1 mod n") and start == "0") or (b == "i" and start in ("n-1", "-1")))
    if not ok:
        if (lo, hi) == (0, 0) or hi - lo < 0:
            rep.bad("edge", f.qual, "the azimuths do not follow the whole ring: start at vertex %s, then vertex %s for "
                    "iterations %s..n%+d" % (start, b, lo, hi - 1), where)
            return
        raise Odd("range of the loop")
    rep.ok("%s: azimuths follow the whole ring" % f.qual, where)
    # reduction of the difference
    nm = Norm(lambda t: "cur" if t is curt else ("prev" if t is prev else None))
    D = ratom("cur") - ratom("prev")
    # sample regions of D: (-360,-180), -180, (-180,180), 180, (180,360)
    cuts = {-360, -180, 180, 360}
    for conds, d in deltas:
        for c, pol in conds:
            for t in walk(c):
                if t.op == "cmp":
                    q = nm(t.args[2]) - nm(t.args[1])
                    for k in (1, -1):
                        r = (q - D * rconst(k)).const()
                        if r is not None and -360 < -k * r < 360:
                            cuts.add(-k * r)
    cuts = sorted(cuts)
    for lo_, hi_ in zip(cuts, cuts[1:]):
        want = 360 if hi_ <= -180 else (-360 if lo_ >= 180 else 0)
        got = set()
        for conds, d in deltas:
            t = [region(nm, c, D, lo_, hi_) for c, pol in conds]
            if any(v is not None and v != pol for v, (c, pol) in zip(t, conds)):
                continue
            if None in t:
                raise Odd("condition on the azimuth difference")
            q = (nm(d) - D).const()
            if q is None:
                q = (nm(d) + D).const()
                raise Odd("summand")
            got.add(q)
        if not got:
            got = {"nothing"}
        if got == {want}:
            rep.ok("%s: a difference in (%d, %d) is changed by %d" % (f.qual, lo_, hi_, want), where)
        else:
            rep.bad("wrap", f.qual, "an azimuth difference between %d and %d is changed by %s instead of %d" % (
                lo_, hi_, sorted(map(str, got)), want), where)


def region(nm, c, D, lo, hi):
    """truth of a comparison for every difference strictly inside (lo, hi)"""
    if c.op == "not":
        v = region(nm, c.args[0], D, lo, hi)
        return None if v is None else not v
    if c.op != "cmp" or c.args[0] not in ("<", "<="):
        return None
    q = nm(c.args[2]) - nm(c.args[1])       # true when q > 0
    for k in (1, -1):
        r = (q - D * rconst(k)).const()
        if r is not None:
            a, b = sorted((k * lo + r, k * hi + r))
            return True if a >= 0 else (False if b <= 0 else None)
    return None


# ------------------------------------------------------------------ use by Polygon

class PolyPol(Policy):
    max_depth = 2
    max_states = 2000

    def inline(self, i, f, recv, d):
        return f.cls is not None and f.cls.name == "Polygon" and f.name.startswith("_") and not f.name.startswith("__")


def use(p, rep):
    m = p.modules.get("karta.vector.geometry")
    c = m.classes.get("Polygon") if m else None
    f = c.methods.get("contains") if c else None
    if f is None:
        return
    rep.fn(f.qual)
    me = mk("param", "self")
    for path in Interp(p, PolyPol()).run(f, c):
        if path.kind != "return" or path.value is None:
            continue
        v = path.value
        terms = [v] + [x for x, _ in path.conds]
        kernels = [t for x in terms for t in walk(x) if t.op == "call" and t.args[0].op == "func" and
                   t.args[0].args[0].startswith(MOD + ".")]
        for k in set(kernels):
            f2 = p.modules[MOD].funcs.get(k.args[0].args[0].split(".")[-1])
            a = [arg(k, n, j) for j, n in enumerate(f2.pos)] if f2 else []
            if len(a) >= 3 and None not in a[:2]:
                pos = [cval(x.args[1]) if x.op == "item" and is_const(x.args[1]) else
                       {"x": 0, "y": 1}.get(x.args[1]) if x.op == "attr" else None for x in a[:2]]
                if pos == [1, 0]:
                    rep.bad("axis", f.qual, "x and y are exchanged in the call of the containment kernel", path.where)
                elif pos == [0, 1]:
                    rep.ok("%s: x and y of the point in order" % f.qual, path.where)
        if is_const(v) and not cval(v):
            outer = [(x, b) for x, b in path.conds if any(t in set(kernels) for t in walk(x))]
            continue
        if kernels or not is_const(v):
            reads = any(t.op == "attr" and t.args[0] is me and t.args[1] in ("subs", "_subs") for x in terms for t in walk(x))
            if not kernels:
                continue
            if reads:
                rep.ok("%s: the holes are consulted" % f.qual, path.where)
                partial(f, terms, me, rep, path.where)
            else:
                rep.bad("holes", f.qual, "a point is reported inside without consulting the polygon's holes", path.where)


def partial(f, terms, me, rep, where):
    for x in terms:
        for t in walk(x):
            if t.op in ("item", "slice") and t.args[0].op == "attr" and t.args[0].args[0] is me and \
                    t.args[0].args[1] == "subs":
                rep.bad("holes", f.qual, "only some of the polygon's holes are consulted (%s)" % t, where)


def check(p=None):
    p = p or Program()
    rep = Report("C23", RULE)
    rep.assumptions += ["getX/getY of a ring wrap around at its end (external coordstring package)",
                        "points exactly on an edge may be counted either way",
                        "sums of azimuth differences are within half a turn of 0 or 360 degrees"]
    for step in (planar, azimuths, use):
        try:
            step(p, rep)
        except (KeyError, IndexError, AttributeError, TypeError, RecursionError) as e:
            rep.undec("%s: %s: %s" % (step.__name__, type(e).__name__, e))
    return rep
