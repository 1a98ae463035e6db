"""C32: geodesic formulas on the sphere and the ellipsoid."""
import ast
import math
import zlib

from .. import geoseries
from ..interp import Interp
from ..loader import Program
from ..poly import Norm, Rat, rconst
from ..report import Report
from ..results import ResultPolicy
from ..symev import SymEval, Funs, PI, equal, num, value
from ..terms import T, mk, const, is_const, cval, fmt, walk, contains, children, item

TECHNIQUE = "normal forms of the value terms of the geodesic formulas against series derived from their integrals in exact arithmetic"
RULE = ("Every sum over sines or cosines in the geodesy module is taken apart into coefficients, angles and the factor before it; the "
        "coefficients must be those that the expansion of the geodesic integrals gives (I1, I2, I3 and the reversion of I1 to sixth "
        "order in eps, I4 of the area), derived by the check in exact arithmetic from the integrals, and the factor and the angles "
        "must belong to the same expansion. With the series made opaque, the closed formulas (forward problem, area of a "
        "quadrilateral, the auxiliary triangles, distance and azimuth in the plane and on the sphere, spherical vectors) are compared as normal "
        "forms. The area under a segment must change sign with its direction along the shorter way round and with its side of the equator.")
MOD = "karta.geodesy"
TOL = 1e-11


class P32(ResultPolicy):
    max_depth = 5
    max_states = 4000
    opaque = ("fzero_brent", "solve_astroid")

    def inline(self, i, f, recv, depth):
        return f.module.name == MOD and f.name not in self.opaque


class Quiet(P32):
    opaque = P32.opaque + ("_solve_NEA", "_solve_NEB", "_canonical_configuration", "solve_vincenty", "_ellipsoidal_inverse_equatorial",
                           "ellipsoidal_inverse", "_ellipsoidal_area")


class Keep(Interp):
    """keeps what the bodies of loops assign"""
    def __init__(self, *a, **k):
        Interp.__init__(self, *a, **k)
        self.kept = []

    def summarise(self, s, pre, itt, depth, lvs, alv, ends, breaks, names, tnames, mapping):
        for e in ends:
            self.kept.append((dict((n, self.reify(v, e)) for n, v in e.env.items() if isinstance(v, T)), dict(lvs),
                              {x.id for x in ast.walk(s.test) if isinstance(x, ast.Name)} if isinstance(s, ast.While) else set()))
        return Interp.summarise(self, s, pre, itt, depth, lvs, alv, ends, breaks, names, tnames, mapping)


def callname(t):
    if isinstance(t, T) and t.op == "call" and t.args[0].op in ("ext", "builtin", "func"):
        return str(getattr(t.args[0].args[0], "name", t.args[0].args[0])).split(".")[-1]
    return None


def args(t):
    return [v for _, v in t.args[2]] if t.op == "mcall" else [v for _, v in t.args[1]]


def factors(t):
    if t.op == "bin" and t.args[0] == "*":
        return factors(t.args[1]) + factors(t.args[2])
    return [t]


_SUB = {}


def rewrite(t, table):
    """t with subterms replaced; table maps terms"""
    memo = {}

    def go(x):
        if x in table:
            return table[x]
        if not isinstance(x, T):
            return tuple(go(y) for y in x) if isinstance(x, tuple) else x
        r = memo.get(x)
        if r is None:
            a = tuple(go(y) if isinstance(y, (T, tuple)) else y for y in x.args)
            r = x if all(p is q for p, q in zip(a, x.args)) else T_(x.op, a)
            memo[x] = r
        return r
    return go(t)


def T_(op, a):
    return mk(op, *a)


class Names(object):
    """the parameters of the expansions, found in terms by their value"""
    def __init__(self):
        self.n = Norm()
        self.a, self.b = mk("param", "a"), mk("param", "b")

    def third(self, x):
        """n = (a - b) / (a + b)"""
        a, b = self.n(self.a), self.n(self.b)
        return self.n(x).same((a - b) / (a + b))

    def ep2(self, x):
        a, b = self.n(self.a), self.n(self.b)
        return self.n(x).same((a * a - b * b) / (b * b))

    def eps(self, x):
        """(r - 1) / (r + 1) with r a square root: gives the argument of the root"""
        if x.op != "bin" or x.args[0] != "/":
            return None
        v = self.n(x)
        for r in walk(x, set()):
            k = self.root(r)
            if k is not None:
                R = self.n(r)
                if v.same((R - rconst(1)) / (R + rconst(1))):
                    return k
        return None

    def root(self, r):
        if callname(r) == "sqrt":
            return args(r)[0]
        if r.op == "bin" and r.args[0] == "**" and is_const(r.args[2]) and cval(r.args[2]) == 0.5:
            return r.args[1]
        return None

    def table(self, t):
        """named replacements for the parameters in t, largest subterms first, and 1 + k2 of eps"""
        out, k2 = {}, []
        if not any(x is self.a or x is self.b for x in walk(t, set())):
            return out, k2
        for x in walk(t, set()):
            if x.op != "bin" or x.args[0] not in ("/", "*", "-", "+"):
                continue
            if x in out:
                continue
            e = self.eps(x)
            if e is not None:
                out[x] = mk("param", "eps")
                k2.append(e)
                continue
            at = self.small(x)
            if not at:
                continue
            if self.third(x):
                out[x] = mk("param", "n")
            elif self.ep2(x):
                out[x] = mk("param", "ep2")
        return out, k2

    def small(self, x):
        """only a and b occur"""
        if x not in _SUB:
            _SUB[x] = all(y.op in ("param", "const", "bin", "un", "call", "builtin", "ext") and (y.op != "param" or y in (self.a, self.b)) and
                          (y.op != "call" or callname(y) == "float") for y in walk(x, set()))
        return _SUB[x]


class Series(object):
    def __init__(self, total, elems, kind, theta, coefs, k2):
        self.total, self.elems, self.kind, self.theta, self.coefs, self.k2 = total, elems, kind, theta, coefs, k2


def powers(r, keys):
    """polynomial normal form as {(powers of the keys): coefficient}; None if other atoms occur"""
    d = r.d
    if len(d) != 1 or () not in d:
        return None
    c0 = d[()]
    out = {}
    for m, c in r.n.items():
        e = [0] * len(keys)
        for k, p in m:
            if k not in keys:
                return None
            e[keys.index(k)] = p
        out[tuple(e)] = c / c0
    return out


def close(p, q):
    for k in set(p) | set(q):
        x, y = p.get(k, 0), q.get(k, 0)
        if abs(x - y) > TOL * max(abs(x), abs(y)):
            return False
    return True


def ratio(x, y):
    """the constant x / y, if it is one"""
    if y.zero():
        return None
    m = sorted(y.n)[0]
    xs = [c for k, c in x.n.items() if k == m]
    k = sorted(y.d)[0]
    ds = [c for q, c in x.d.items() if q == k]
    if xs and ds:
        c = (xs[0] / ds[0]) / (y.n[m] / y.d[k])
        if x.same(y * rconst(c)):
            return c
    return (x / y).const()


def take(names, t):
    """a sum over sines or cosines as a Series; None when it is something else"""
    a = args(t)
    if not a or a[0].op not in ("list", "tuple") or len(a[0].args) < 3:
        return None
    rows = []
    kind = None
    for x in a[0].args:
        if not isinstance(x, T):
            return None
        fs = factors(x)
        trig = [f for f in fs if callname(f) in ("sin", "cos")]
        if len(trig) != 1:
            return None
        kind = kind or callname(trig[0])
        if callname(trig[0]) != kind:
            return None
        rows.append(([f for f in fs if f is not trig[0]], args(trig[0])[0]))
    table, k2 = names.table(t)
    n = names.n
    base = n(rows[0][1])
    if base.zero():
        return None
    coefs = {}
    for fs, ang in rows:
        c = ratio(n(ang), base)
        if c is None:
            return None
        r = rconst(1)
        for f in fs:
            r = r * n(rewrite(f, table))
        coefs[c] = r
    return Series(t, a[0].args, kind, rows[0][1], coefs, k2[0] if k2 else None)


def key(n, name):
    return list(n(mk("param", name)).atoms())[0]


def polys(names, s):
    """{multiple: {(i, j): coefficient}} in (eps, n), or in (k2, ep2) for cosines; None if not of this form"""
    n = names.n
    out = {}
    for c, r in s.coefs.items():
        if s.kind == "sin":
            p = powers(r, [key(n, "eps"), key(n, "n")])
        else:
            other = [k for k in r.atoms() if k != key(n, "ep2")]
            if len(other) != 1:
                return None
            p = powers(r, [key(n, "ep2"), other[0]])
            if p is not None:
                if any(j % 2 or i < j // 2 for i, j in p):
                    return None
                p = {(j // 2, i - j // 2): v for (i, j), v in p.items()}
        if p is None:
            return None
        out[c] = p
    return out


REF = None


def references():
    global REF
    if REF is None:
        A1, C1 = geoseries.A1C1()
        A2, C2 = geoseries.A2C2()
        A3, C3 = geoseries.A3C3()
        REF = {"I1": ("sin", A1, C1), "I2": ("sin", A2, C2), "I3": ("sin", A3, C3), "R1": ("sin", None, geoseries.C1p()),
               "I4": ("cos", None, geoseries.C4())}
    return REF


def which(s, ps):
    """the expansion that the coefficients belong to, by the number of terms that agree"""
    best = None
    for name, (kind, A, C) in references().items():
        if kind != s.kind:
            continue
        hits = 0
        for l, ref in enumerate(C, 1):
            got = ps.get(l if kind == "sin" else 2 * l - 1, {})
            hits += sum(1 for k, v in ref.items() if k in got and abs(got[k] - v) <= TOL * abs(v))
        if best is None or hits > best[0]:
            best = (hits, name)
    return best


def label(name, l, k):
    v = ("k2", "ep2") if name == "I4" else ("eps", "n")
    p = " ".join("%s^%d" % (x, e) if e > 1 else x for x, e in zip(v, k) if e) or "1"
    return "%s, term %d, coefficient of %s" % ({"I1": "distance integral I1", "I2": "integral I2", "I3": "longitude integral I3",
                                               "R1": "reversion of the distance integral", "I4": "area integral I4"}[name], l, p)


def harvest(names, rep, tag, terms, where):
    """judge every series in the terms; gives {sum term: (name, Series)}"""
    out = {}
    for t in terms:
        for x in walk(t, set()):
            if x in out or callname(x) != "sum":
                continue
            s = take(names, x)
            if s is None:
                rep.undec("%s: a sum" % tag)
                out[x] = None
                continue
            ps = polys(names, s)
            if ps is None:
                rep.undec("%s: coefficients of a series" % tag)
                out[x] = None
                continue
            hits, name = which(s, ps)
            kind, A, C = references()[name]
            total = sum(len(c) for c in C)
            if hits * 2 < total:
                rep.undec("%s: unknown series" % tag)
                out[x] = None
                continue
            for l, ref in enumerate(C, 1):
                got = ps.get(l if kind == "sin" else 2 * l - 1, {})
                for k in sorted(set(ref) | set(got)):
                    a, b = got.get(k, 0), ref.get(k, 0)
                    if abs(a - b) <= TOL * max(abs(a), abs(b)):
                        rep.ok("%s: %s" % (tag, label(name, l, k)), where)
                    elif sum(k) <= (6 if name in ("I1", "I2", "R1") else 5):
                        rep.bad("coefficient", tag, "%s is %.12g, the expansion has %s" % (label(name, l, k), float(a), b), where)
            for c in ps:
                l = c if kind == "sin" else (c + 1) / 2
                if l.denominator != 1 or l < 1 or l > len(C) and any(ps[c].values()):
                    rep.bad("coefficient", tag, "an angle of the %s is %s times the first" % (label(name, 1, (0, 0)).split(",")[0], c), where)
            out[x] = (name, s)
    return {x: v for x, v in out.items() if v is not None}


def opaque(name, *a):
    return mk("call", mk("ext", name), tuple((i, x) for i, x in enumerate(a)))


def fold(names, rep, tag, t, found, where):
    """t with the expansions made opaque: A (theta + sum) becomes I(theta, k2)"""
    n = names.n
    table, facts = {}, {}
    for x in walk(t, set()):
        if x.op != "bin" or x.args[0] != "*" or x in table:
            continue
        for A, S in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
            if S.op == "bin" and S.args[0] == "+":
                for th, sm in ((S.args[1], S.args[2]), (S.args[2], S.args[1])):
                    if sm in found and found[sm][0] in ("I1", "I2", "I3"):
                        name, s = found[sm]
                        if x in facts:
                            continue
                        facts[x] = True
                        double(rep, n, tag, name, s, th, where)
                        factor(names, rep, tag, name, A, s, where)
                        table[x] = opaque(name, th, s.k2)
                        table[A] = opaque("A" + name, s.k2)
    for x in walk(t, set()):
        if x.op == "bin" and x.args[0] == "+":
            for th, sm in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
                if sm in found and found[sm][0] == "R1":
                    double(rep, n, tag, "R1", found[sm][1], th, where)
                    table[x] = opaque("R1", th, found[sm][1].k2)
        if x in found and found[x][0] == "I4":
            s = found[x][1]
            table[x] = opaque("I4", s.theta)
    # the innermost first: the table's images contain series themselves
    for _ in range(6):
        t2 = rewrite(t, table)
        if t2 is t:
            break
        t = t2
    return t


def double(rep, n, tag, name, s, th, where):
    r = ratio(n(s.theta), n(th))
    if r == 2:
        rep.ok("%s: angles of the %s" % (tag, name), where)
    elif r is not None:
        rep.bad("angle", tag, "the angles in the sum of %s are %s times the variable, not twice" % (name, r), where)
    else:
        rep.undec("%s: angles of the %s" % (tag, name))


def factor(names, rep, tag, name, A, s, where):
    n = names.n
    table, _ = names.table(A)
    r = n(rewrite(A, table))
    e = n(mk("param", "eps"))
    one = rconst(1)
    ref = references()[name][1]
    r = {"I1": lambda: r * (one - e), "I2": lambda: r / (one - e), "I3": lambda: r}[name]()
    p = None
    if {k for k in r.atoms()} <= {key(n, "eps"), key(n, "n")}:
        if len(r.d) == 1 and () in r.d:
            p = powers(r, [key(n, "eps"), key(n, "n")])
        else:
            # exact quotient
            want = rconst(0)
            for (i, j), v in ref.items():
                m = rconst(v)
                for _ in range(i):
                    m = m * e
                for _ in range(j):
                    m = m * n(mk("param", "n"))
                want = want + m
            p = ref if near(n, r, want) else {}
    if p is None:
        rep.undec("%s: factor of the %s" % (tag, name))
    elif close(p, ref):
        rep.ok("%s: factor of the %s" % (tag, name), where)
    else:
        rep.bad("coefficient", tag, "the factor before the sum of %s is not the constant term of its expansion" % name, where)


def near(n, r, want):
    f = Funs()
    return equal(f, r, want) is not False


def check():
    rep = Report("C32", RULE)
    p = Program()
    mod = p.modules.get(MOD)
    if mod is None:
        rep.undec("module not found")
        return rep
    POS.update((f.qual, tuple(f.pos)) for f in mod.funcs.values())
    for part in (series, areas_signed, closed, newton, special):
        try:
            part(p, rep, mod)
        except Exception as e:
            rep.undec("%s: %s %s" % (part.__name__, type(e).__name__, e))
    return rep


def terms_of(it, paths):
    out = []
    for q in paths:
        if isinstance(q.value, T):
            out.append(it.reify(q.value, q.state))
    for env, _, _ in it.kept:
        out += list(env.values())
    return list(dict.fromkeys(out))


def series(p, rep, mod):
    """every expansion of the module"""
    n = 0
    for f in mod.funcs.values():
        it = Keep(p, Quiet())
        try:
            paths = it.run(f, None)
        except Exception as e:
            rep.undec("%s: %s" % (f.name, type(e).__name__))
            continue
        names = Names()
        ts = terms_of(it, paths)
        if not any(callname(x) == "sum" for t in ts for x in walk(t, set())):
            continue
        rep.fn(f.qual)
        found = harvest(names, rep, f.name, ts, f.where)
        n += len(found)
        for t in ts:
            fold(names, rep, f.name, t, found, f.where)
    if not n:
        rep.undec("no series")


class Ev(SymEval):
    """calls that are left are opaque functions of their arguments"""
    def __init__(self, env, funs=None):
        SymEval.__init__(self, env, self.opq, funs)

    def opq(self, ev, t):
        n = callname(t)
        if t.op == "call" and (n in OPAQUE or n.startswith("opaque:")):
            return self.funs(n.replace("opaque:", ""), *[num(self.ev(x)) for x in args(t)])
        raise NotImplementedError


POS = {}        # parameters of the functions of the module


def ordered(t):
    """arguments of a call of a function of the package, in the order of its parameters"""
    d = dict(t.args[1])
    pos = POS.get(t.args[0].args[0], ())
    if any(isinstance(k, str) and k not in pos for k in d):
        return args(t)
    out = []
    for i, n in enumerate(pos):
        v = d.get(i, d.get(n))
        if v is not None and v.op != "default":
            out.append(v)
    return out if len(out) == len(d) else args(t)


def functions_out(t):
    """calls of functions of the package as opaque functions"""
    for _ in range(8):
        table = {}
        inner = set()
        for x in walk(t, set()):
            if x.op == "item" and is_const(x.args[1]) and x.args[0].op == "call" and x.args[0].args[0].op == "func":
                table[x] = opaque("opaque:%s:%s" % (callname(x.args[0]), cval(x.args[1])), *ordered(x.args[0]))
                inner.add(x.args[0])
        for x in walk(t, set()):
            if x.op == "call" and x.args[0].op == "func" and x not in inner:
                table[x] = opaque("opaque:%s" % callname(x), *ordered(x))
        if not table:
            break
        t = rewrite(t, table)
    return t


OPAQUE = {"I1": lambda x, k: 1.02 * x + 0.11 * math.sin(2 * x) + 0.3 * k, "I2": lambda x, k: 0.97 * x - 0.13 * math.sin(2 * x) + 0.2 * k,
          "I3": lambda x, k: 0.95 * x + 0.07 * math.sin(2 * x) - 0.1 * k, "R1": lambda x, k: x - 0.06 * math.sin(2 * x) + 0.05 * k,
          "I4": lambda x: 0.7 * math.cos(x) + 0.2 * math.cos(3 * x), "AI1": lambda k: 1.03 + 0.2 * k, "AI3": lambda k: 0.98 - 0.2 * k,
          "AI2": lambda k: 0.94 - 0.1 * k}


def ev_value(ev, t):
    return ev.ev(functions_out(t))


LATS = ((5, 10), (-5, 10), (5, -10), (-5, -10), (10, 5), (10, -5), (0, 10), (7, 0))
LONS = ((0, 10), (20, 5), (175, -175), (-175, 175), (-30, -10))


def areas_signed(p, rep, mod):
    """areas under a segment: opposite for the opposite direction, for the mirror image, and the same further round"""
    for f in mod.funcs.values():
        ps = f.pos
        if not f.name.endswith("_area") or not {"x1", "y1", "x2", "y2"} <= set(ps):
            continue
        rep.fn(f.qual)
        it = Interp(p, Signed())
        paths = [q for q in it.run(f, None) if q.kind == "return" and isinstance(q.value, T)]
        vals = [it.reify(q.value, q.state) for q in paths]
        funs = Funs()
        memo = {}

        def at(x1, y1, x2, y2):
            k = (x1, y1, x2, y2)
            if k not in memo:
                env = dict((mk("param", n), num(v)) for n, v in zip(("x1", "y1", "x2", "y2"), k))
                for n in ps:
                    if n not in ("x1", "y1", "x2", "y2"):
                        env[mk("param", n)] = num(ratom_(n))
                got = []
                for q, v in zip(paths, vals):
                    ev = Ev(env, funs)
                    try:
                        if all(ev.truth(functions_out(c)) == b for c, b in q.conds):
                            got.append(num(ev_value(ev, v)))
                    except Exception:
                        continue
                memo[k] = got[0] if len(got) == 1 else None
            return memo[k]
        bad = {}
        n = 0
        arguments(rep, f, funs, at)
        for y1, y2 in LATS:
            for x1, x2 in LONS:
                v = at(x1, y1, x2, y2)
                for what, w, sg in (("is not the opposite for the mirror image on the other side of the equator", at(x1, -y1, x2, -y2), 1),
                                    ("is not the opposite for the opposite direction", at(x2, y2, x1, y1), 1),
                                    ("changes when the segment is turned about the axis", at(wrap(x1 + 40), y1, wrap(x2 + 40), y2), -1),
                                    ("changes when the segment is turned about the axis", at(wrap(x1 + 200), y1, wrap(x2 + 200), y2), -1)):
                    if v is None or w is None:
                        continue
                    z = v + w if sg > 0 else v - w
                    n += 1
                    if not z.zero():
                        if equal(funs, z, rconst(0)) is False or True:
                            bad.setdefault(what, ((x1, y1), (x2, y2), v, w))
        if not n:
            rep.undec("%s: signs" % f.name)
        for what, (a, b, v, w) in bad.items():
            # the same opaque areas with the wrong signs are a fault; other expressions are not judged
            if v.same(w) or (v + w).zero():
                rep.bad("sign", f.name, "the area under the segment %s-%s %s" % (a, b, what), f.where)
            else:
                rep.undec("%s: area under %s-%s" % (f.name, a, b))
        if not bad and n:
            rep.ok("%s: signs of areas (%d comparisons)" % (f.name, n), f.where)


def arguments(rep, f, funs, at):
    """the opaque areas are asked for the canonical segment"""
    for k in ((0, 5, 10, 10), (0, -20, 7, -3), (5, 8, -6, 1)):
        v = at(*k)
        if v is None:
            continue
        dx, lats = num(abs(k[2] - k[0])), sorted((abs(k[1]), abs(k[3])))
        y1, y2 = num(-lats[1]), num(-lats[0])
        P = dict((n, num(ratom_(n))) for n in f.pos)
        ok = None
        if f.name == "spherical_area" and "r" in P:
            a = [P["r"], num(0), rad(dx), rad(y1), rad(y2)]
            w = P["r"] * P["r"] * (num(funs("solve_vincenty:1", *a)) - num(funs("solve_vincenty:0", *a)))
            ok = v.same(w) or v.same(num(0) - w)
            names = {(funs.entry(x) or ("",))[0] for x in v.atoms()} - {""}
            if not ok and not names <= {"solve_vincenty:0", "solve_vincenty:1"}:
                ok = None
        elif f.name == "ellipsoidal_area" and {"a", "b"} <= set(P):
            az = num(funs("ellipsoidal_inverse:0", P["a"], P["b"], num(0), y1, dx, y2))
            want = [P["a"], P["b"], rad(dx), rad(y1), rad(y2), rad(az)]
            es = [funs.entry(x) for x in v.atoms() if (funs.entry(x) or ("",))[0] == "_ellipsoidal_area"]
            if len(es) == 1 and len(es[0][1]) == 7:
                ok = all(x.same(y) for x, y in zip(es[0][1], want))
        if ok:
            rep.ok("%s: canonical segment" % f.name, f.where)
        elif ok is False:
            rep.bad("segment", f.name, "the area is not that of the segment in its canonical position", f.where)
        else:
            rep.undec("%s: canonical segment" % f.name)


def wrap(x):
    return (x + 180) % 360 - 180


def ratom_(n):
    from ..poly import ratom
    return ratom(n)


class Signed(Quiet):
    opaque = tuple(n for n in Quiet.opaque if n != "_canonical_configuration")


class Ref(object):
    """formulas in normal form"""
    def __init__(self, ev):
        self.ev = ev
        for n in ("sin", "cos", "tan", "atan", "atan2", "acos", "asin", "sqrt", "atanh", "abs"):
            setattr(self, n, (lambda n: lambda *a: num(ev.npy_(n, *a)))(n))

    def mod(self, a, b):
        return num(self.ev.op2("%", num(a), num(b)))

    def f(self, name, *a):
        return num(self.ev.funs(name, *a))

    def wrap(self, x):
        return self.mod(x + num(180), 360) - num(180)


def nea(R, a0, a1, b1):
    s1 = R.atan2(R.sin(b1), R.cos(a1) * R.cos(b1))
    return s1, R.atan2(R.sin(a0) * R.sin(s1), R.cos(s1))


def neb(R, a0, a1, b1, b2, second=False):
    if second:
        a2 = R.asin(R.sin(a0) / R.cos(b2))
    else:
        a2 = R.acos(R.sqrt(R.cos(a1) * R.cos(a1) * R.cos(b1) * R.cos(b1) + R.cos(b2) * R.cos(b2) - R.cos(b1) * R.cos(b1)) / R.cos(b2))
    s2 = R.atan2(R.sin(b2), R.cos(a2) * R.cos(b2))
    return a2, s2, R.atan2(R.sin(a0) * R.sin(s2), R.cos(s2))


def alpha0(R, a1, b1):
    return R.atan2(R.sin(a1) * R.cos(b1), R.sqrt(R.cos(a1) * R.cos(a1) + R.sin(a1) * R.sin(b1) * R.sin(a1) * R.sin(b1)))


def rad(x):
    return x * PI / num(180)


def deg(x):
    return x * num(180) / PI


def r_forward(R, P):
    a, b = P["a"], P["b"]
    f = (a - b) / a
    a1 = rad(P["azimuth"])
    b1 = R.atan((num(1) - f) * R.tan(rad(P["y"])))
    a0 = alpha0(R, a1, b1)
    s1, o1 = nea(R, a0, a1, b1)
    k2 = num(1) + (a * a - b * b) / (b * b) * R.cos(a0) * R.cos(a0)       # the argument of the root in eps
    I = R.f("I1", s1, k2)
    s2 = R.f("R1", (I * b + P["distance"]) / (b * R.f("AI1", k2)), k2)
    a2 = R.atan2(R.sin(a0), R.cos(a0) * R.cos(s2))
    b2 = R.atan2(R.cos(a0) * R.sin(s2), R.sqrt(R.cos(a0) * R.cos(s2) * R.cos(a0) * R.cos(s2) + R.sin(a0) * R.sin(a0)))
    o2 = R.atan2(R.sin(a0) * R.sin(s2), R.cos(s2))
    l1 = o1 - f * R.sin(a0) * R.f("I3", s1, k2)
    l2 = o2 - f * R.sin(a0) * R.f("I3", s2, k2)
    x2 = P["x"] + deg(l2 - l1)
    y2 = deg(R.atan(R.tan(b2) / (num(1) - f)))
    baz = R.wrap(deg(a2 + PI))
    return [(R.wrap(x2), y2, baz), (R.wrap(x2 - num(360)), y2, baz)]


def r_quad(R, P):
    out = []
    for second in (False, True):
        a, b = P["a"], P["b"]
        f = (a - b) / a
        e2 = (a * a - b * b) / (a * a)
        e = R.sqrt(f * (num(2) - f))
        c2 = a * a / num(2) + b * b / num(2) * R.atanh(e) / e
        b1 = R.atan((num(1) - f) * R.tan(P["phi1"]))
        b2 = R.atan((num(1) - f) * R.tan(P["phi2"]))
        a1 = P["alpha1"]
        a0 = alpha0(R, a1, b1)
        s1, o1 = nea(R, a0, a1, b1)
        a2, s2, o2 = neb(R, a0, a1, b1, b2, second)
        h = num(1) / num(2)
        bessel = num(2) * R.atan(R.sin(h * b1 + h * b2) / R.cos(h * b2 - h * b1) * R.tan(h * (o2 - o1)))
        for c in (c2, num(R.ev.op2("**", R.sqrt(c2), num(2)))):
            for ee in (e2, e * e):
                out.append((c * bessel + ee * a * a * R.cos(a0) * R.sin(a0) * (R.f("I4", s2) - R.f("I4", s1)),))
    return out


def r_vincenty(R, P):
    f = P["f"]
    out = []
    b1 = R.atan((num(1) - f) * R.tan(P["phi1"]))
    b2 = R.atan((num(1) - f) * R.tan(P["phi2"]))
    m = (R.cos(b1) + R.cos(b2)) / num(2)
    w = R.sqrt(num(1) - f * (num(2) - f) * m * m)
    o = P["lambda12"] / w
    zr = R.cos(b1) * R.sin(b2) - R.sin(b1) * R.cos(b2) * R.cos(o)
    zi = R.cos(b2) * R.sin(o)
    s = R.atan2(R.sqrt(zr * zr + zi * zi), R.sin(b1) * R.sin(b2) + R.cos(b1) * R.cos(b2) * R.cos(o))
    a1 = R.atan2(zi, zr)
    a2 = R.atan2(R.cos(b1) * R.sin(o), R.cos(b1) * R.sin(b2) * R.cos(o) - R.sin(b1) * R.cos(b2))
    return [(a1, a2, P["a"] * w * s)]


def r_sphere(R, P):
    out = []
    for ab in (True, False):
        dx, dy = P["lon1"] - P["lon2"], P["lat1"] - P["lat2"]
        if ab:
            dx, dy = R.abs(dx), R.abs(dy)
        c = R.acos(R.sin(P["lat1"]) * R.sin(P["lat2"]) + R.cos(P["lat1"]) * R.cos(P["lat2"]) * R.cos(dx))
        h = num(1) / num(2)
        s, t = R.sin(dy * h), R.sin(dx * h)
        v = num(2) * R.asin(R.sqrt(s * s + R.cos(P["lat1"]) * R.cos(P["lat2"]) * t * t))
        out += [(P["radius"] * c,), (P["radius"] * v,)]
    return out


def r_azimuth(R, P):
    l1, l2, d = rad(P["lat1"]), rad(P["lat2"]), rad(P["lon2"] - P["lon1"])
    return [(R.atan2(R.sin(d), R.cos(l1) * R.tan(l2) - R.sin(l1) * R.cos(d)),),
            (R.atan2(R.sin(d) * R.cos(l2), R.cos(l1) * R.sin(l2) - R.sin(l1) * R.cos(l2) * R.cos(d)),)]


def r_plane(R, P):
    dx, dy = P["x2"] - P["x1"], P["y2"] - P["y1"]
    return [(R.sqrt(dx * dx + dy * dy),)]


def r_planeaz(R, P):
    return [(R.atan2(P["x2"] - P["x1"], P["y2"] - P["y1"]),)]


def r_sph2cart(R, P):
    t, l = rad(num(90) - P["lat"]), rad(P["lon"])
    la = rad(P["lat"])
    return [(R.sin(t) * R.cos(l), R.sin(t) * R.sin(l), R.cos(t)), (R.cos(la) * R.cos(l), R.cos(la) * R.sin(l), R.sin(la))]


def r_cart2sph(R, P):
    x, y, z = P["x"], P["y"], P["z"]
    return [(deg(R.atan2(y, x)), deg(R.atan2(z, R.sqrt(x * x + y * y))))]


def r_sarea(R, P):
    return None


# instances in the domain of the roots and inverse functions
INSTANCES = {"_ellipsoidal_area": [{"a": 1.3, "b": 1.1, "phi1": -0.7, "phi2": -0.2, "alpha1": 0.6, "alpha2": 1.1, "lambda12": 0.5},
                                   {"a": 1.9, "b": 1.7, "phi1": -0.9, "phi2": 0.4, "alpha1": 0.9, "alpha2": 0.3, "lambda12": 0.8},
                                   {"a": 1.2, "b": 0.9, "phi1": -0.5, "phi2": -0.3, "alpha1": 0.3, "alpha2": 0.7, "lambda12": 0.2}]}
FORMULAS = (("plane_distance", r_plane, 1), ("plane_azimuth", r_planeaz, 1), ("sphere_distance", r_sphere, 1), ("sphere_azimuth", r_azimuth, 1),
            ("sph2cart", r_sph2cart, 3), ("cart2sph", r_cart2sph, 2), ("solve_vincenty", r_vincenty, 3),
            ("_solve_NEA", lambda R, P: [nea(R, P["alpha0"], P["alpha1"], P["beta1"])], 2),
            ("_solve_NEB", lambda R, P: [neb(R, P["alpha0"], P["alpha1"], P["beta1"], P["beta2"], k) for k in (False, True)], 3),
            ("_ellipsoidal_area", r_quad, 1), ("ellipsoidal_forward", r_forward, 3))


class Npy(Ev):
    def npy_(self, n, *a):
        return self.fun(n, *a)


def closed(p, rep, mod):
    for name, ref, size in FORMULAS:
        f = mod.funcs.get(name)
        if f is None:
            rep.undec("%s not found" % name)
            continue
        try:
            formula(p, rep, f, ref, size)
        except Exception as e:
            rep.undec("%s: %s %s" % (name, type(e).__name__, e))


def formula(p, rep, f, ref, size):
    rep.fn(f.qual)
    it = Keep(p, P32())
    paths = [q for q in it.run(f, None) if q.kind == "return" and isinstance(q.value, T)]
    names = Names()
    quiet = Report("C32", RULE)
    for q in paths:
        t = it.reify(q.value, q.state)
        found = harvest(names, quiet, f.name, [t], f.where)
        t = fold(names, quiet, f.name, t, found, f.where)
        funs = Funs()
        funs.extra = OPAQUE
        funs.instances = INSTANCES.get(f.name)
        P = dict((x, num(ratom_(x))) for x in f.pos)
        ev = Npy(dict((mk("param", x), v) for x, v in P.items()), funs)
        try:
            v = ev_value(ev, t)
        except Exception as e:
            rep.undec("%s: value of the result (%s %s)" % (f.name, type(e).__name__, e))
            continue
        v = tuple(v) if isinstance(v, (tuple, list)) else (v,)
        if len(v) != size or any(not isinstance(x, Rat) and not isinstance(x, (int, float)) for x in v):
            rep.undec("%s: shape of the result" % f.name)
            continue
        alts = ref(Ref(ev), P)
        for k in range(size):
            rs = []
            for a in alts:
                rs.append(equal(funs, num(v[k]), num(a[k])))
                if rs[-1] is True:
                    break
            what = "%s%s" % (f.name, "" if size == 1 else ", result %d" % (k + 1))
            if True in rs:
                rep.ok("%s: formula" % what, q.where)
            elif all(r is False for r in rs):
                rep.bad("formula", what, "the result is another function of the arguments than the formula gives", q.where)
            else:
                rep.undec("%s: formula" % what)


class Guess(dict):
    """some interpretation of every opaque function"""
    def __contains__(self, n):
        return True

    def __getitem__(self, n):
        if dict.__contains__(self, n):
            return dict.__getitem__(self, n)
        h = zlib.crc32(str(n).encode()) % 97 / 97.0
        return lambda *a: 0.4 + h + sum(0.3 * math.sin((k + 1) * x + h) for k, x in enumerate(a)) / (1 + len(a))


def loopvars(t, table):
    """loop variables and results of loops as atoms"""
    for x in walk(t, set()):
        if x.op in ("lv", "fold", "last") and x not in table:
            table[x] = mk("param", "loop%d" % len(table))
    return rewrite(t, table)


def newton(p, rep, mod):
    """the iteration of the inverse problem, and what is returned after it"""
    f = mod.funcs.get("ellipsoidal_inverse")
    if f is None:
        rep.undec("ellipsoidal_inverse not found")
        return
    it = Keep(p, Quiet())
    paths = [q for q in it.run(f, None) if q.kind == "return" and isinstance(q.value, T)]
    names = Names()
    quiet = Report("C32", RULE)
    rows = 0
    for env, lvs, tested in it.kept:
        # the azimuth that is iterated: what the auxiliary triangle is solved for
        cand = set()
        for v in env.values():
            for x in walk(v, set()):
                if callname(x) == "_solve_NEA" and x.args[0].op == "func":
                    a = args(x)
                    cand |= {k for k, l in lvs.items() if len(a) == 3 and (a[1] is l or dict(x.args[1]).get("alpha1") is l)}
        if len(cand) != 1:
            continue
        az = cand.pop()
        funs = Funs()
        funs.extra = Guess(OPAQUE)
        table = {}
        lam = loopvars(lvs[az], table)

        def val(t):
            t = loopvars(t, table)
            found = harvest(names, quiet, f.name, [t], f.where)
            t = functions_out(fold(names, quiet, f.name, t, found, f.where))
            P = dict((x, num(ratom_(x))) for x in list(f.pos) + [y.args[0] for y in table.values()])
            return num(Npy(dict((mk("param", x), v) for x, v in P.items()), funs).ev(t))
        R = Ref(Npy({}, funs))
        want = step(R, num(ratom_(lam.args[0])))
        diffs = [k for k in lvs if k != az and k in tested and isinstance(env.get(k), T) and contains(env[k], lvs[az]) and
                 any(callname(x) == "sum" for x in walk(env[k], set()))]
        if isinstance(env.get(az), T) and env[az] is not lvs[az]:
            diffs.append(az)
        for k in diffs:
            try:
                v = val(env[k])
            except Exception as e:
                rep.undec("%s: step of %s (%s)" % (f.name, k, type(e).__name__))
                continue
            alts = want["azimuth"] if k == az else want["difference"]
            rs = [equal(funs, v, num(a)) for a in alts]
            rows += 1
            what = "the next azimuth" if k == az else "the difference in longitude"
            if True in rs:
                rep.ok("%s: %s" % (f.name, what), f.where)
            elif all(r is False for r in rs):
                rep.bad("iteration", f.name, "%s is another function of the present azimuth than Newton's method gives" % what, f.where)
            else:
                rep.undec("%s: %s" % (f.name, what))
    if not rows:
        rep.undec("%s: iteration" % f.name)
    final(p, rep, f, it, paths, names, quiet)


def step(R, A):
    a, b = num(ratom_("a")), num(ratom_("b"))
    P = [num(ratom_(x)) for x in ("x1", "y1", "x2", "y2")]
    c = [None] + [R.f("_canonical_configuration:%d" % k, *P) for k in (1, 2, 3, 4)]
    f = (a - b) / a
    b1 = R.atan((num(1) - f) * R.tan(rad(c[2])))
    b2 = R.atan((num(1) - f) * R.tan(rad(c[4])))
    lam = rad(c[3] - c[1])
    a0 = alpha0(R, A, b1)
    s1, o1 = [R.f("_solve_NEA:%d" % k, a0, A, b1) for k in (0, 1)]
    a2, s2, o2 = [R.f("_solve_NEB:%d" % k, a0, A, b1, b2) for k in (0, 1, 2)]
    k2 = (a * a - b * b) / (b * b) * R.cos(a0) * R.cos(a0)
    k = num(1) + k2
    d = (o2 - f * R.sin(a0) * R.f("I3", s2, k)) - (o1 - f * R.sin(a0) * R.f("I3", s1, k)) - lam
    J = lambda s: R.f("I1", s, k) - R.f("I2", s, k)
    m = b * (R.sqrt(num(1) + k2 * R.sin(s2) * R.sin(s2)) * R.cos(s1) * R.sin(s2) -
             R.sqrt(num(1) + k2 * R.sin(s1) * R.sin(s1)) * R.sin(s1) * R.cos(s2) - R.cos(s1) * R.cos(s2) * (J(s2) - J(s1)))
    slope = m / (a * R.cos(a2) * R.cos(b2))
    nxt = A - d / slope
    return {"difference": [d, num(0) - d], "azimuth": [R.mod(nxt, num(2) * PI), nxt, A]}


class Special(P32):
    opaque = P32.opaque + ("solve_vincenty", "_ellipsoidal_area")


MERIDIANS = ((0, 0), (-30, -30), (175, 175), (10, -170), (-100, 80))
MLATS = ((-30, 20), (20, -30), (-20, 30), (30, -20), (10, 40), (40, 10), (-10, -40), (-40, -10), (0, 25), (25, 0))
EQUATOR = ((0, 10), (10, 0), (20, -50), (175, -175), (-175, 175), (-170, 100), (100, -170), (350, 10), (10, 350), (0, 270))


def special(p, rep, mod):
    """points on the equator and on one meridian"""
    f = mod.funcs.get("ellipsoidal_inverse")
    if f is None or not {"a", "b", "x1", "y1", "x2", "y2"} <= set(f.pos):
        rep.undec("ellipsoidal_inverse not found")
        return
    it = Keep(p, Special())
    paths = [q for q in it.run(f, None) if q.kind == "return" and isinstance(q.value, T)]
    rows = {}
    for q in paths:
        rows[q] = it.reify(q.value, q.state)
    names = Names()
    quiet = Report("C32", RULE)
    funs = Funs()
    funs.extra = Guess(OPAQUE)

    def at(x1, y1, x2, y2):
        env = dict((mk("param", n), num(v)) for n, v in (("x1", x1), ("x2", x2), ("y1", y1), ("y2", y2)))
        for n in ("a", "b"):
            env[mk("param", n)] = num(ratom_(n))
        got = []
        for q, t in rows.items():
            ev = Npy(env, funs)
            hit = True
            for c, b in q.conds:
                try:
                    if holds(ev, funs, functions_out(c)) != b:
                        hit = False
                        break
                except Exception:
                    pass
            if hit:
                got.append((q, t, ev))
        if len({t for _, t, _ in got}) != 1:
            return None
        q, t, ev = got[0]
        if t.op != "tuple" or len(t.args) != 3:
            return None
        out = []
        for x in t.args:
            try:
                found = harvest(names, quiet, f.name, [x], f.where)
                out.append(num(ev.ev(functions_out(fold(names, quiet, f.name, x, found, f.where)))))
            except Exception:
                out.append(None)
        return q, out
    R = Ref(Npy({}, funs))
    n = 0
    for x1, x2 in EQUATOR:
        d = wrap(x2 - x1)
        r = at(x1, 0, x2, 0)
        if r is None:
            continue
        n += 1
        q, v = r
        tag = "%s: equator from %s to %s" % (f.name, x1, x2)
        for k, w, what in ((0, 90 if d > 0 else -90, "azimuth"), (1, -90 if d > 0 else 90, "back azimuth"),
                           (2, num(ratom_("a")) * rad(num(abs(d))), "distance")):
            same(rep, funs, q, tag, what, v[k], num(w), k < 2)
    for y in (30, -45):
        r = at(5, y, 65, y)
        if r is not None and r[1][2] is not None and equal(funs, r[1][2], num(ratom_("a")) * rad(num(60))) is not False:
            rep.bad("special", "%s: parallel at %s" % (f.name, y), "the points are joined as if they were on the equator", r[0].where)
        else:
            rep.ok("%s: parallel at %s is not the equator" % (f.name, y), f.where)
    for x1, x2 in MERIDIANS:
        for y1, y2 in MLATS:
            over = abs(wrap(x2 - x1)) == 180
            north = y1 + y2 > 0 if over else y2 > y1
            r = at(x1, y1, x2, y2)
            if r is None:
                continue
            n += 1
            q, v = r
            tag = "%s: meridian from %s to %s" % (f.name, (x1, y1), (x2, y2))
            same(rep, funs, q, tag, "azimuth", v[0], num(0 if north else 180), True)
            back = (0 if north else 180) if over else (180 if north else 0)
            same(rep, funs, q, tag, "back azimuth", v[1], num(back), True)
            same(rep, funs, q, tag, "distance", v[2], meridian(R, y1, y2, over), False)
    if not n:
        rep.undec("%s: equator and meridians" % f.name)


def numeric(funs, x):
    """no variables but pi"""
    for k in x.atoms():
        e = funs.entry(k)
        if e is None:
            if k != "pi":
                return False
        elif not all(numeric(funs, num(y)) for y in e[1]):
            return False
    return True


def holds(ev, funs, c):
    """truth of a condition on numbers, pi among them"""
    if c.op == "exc":
        return False
    try:
        return ev.truth(c)
    except Exception:
        if c.op != "cmp":
            raise
        x, y = (num(ev.ev(a)) for a in c.args[1:3])
        if not (numeric(funs, x) and numeric(funs, y)):
            raise
        x, y = value(funs, x, {}, 0), value(funs, y, {}, 0)
        return {"==": x == y, "<": x < y, "<=": x <= y}[c.args[0]]


def meridian(R, y1, y2, over):
    """distance along a meridian"""
    a, b = num(ratom_("a")), num(ratom_("b"))
    f = (a - b) / a
    b1, b2 = (R.atan((num(1) - f) * R.tan(rad(num(y)))) for y in (y1, y2))
    k = a * a / (b * b)
    if over:
        # over the pole: the second one is measured on from it
        b2 = PI - b2 if y1 + y2 > 0 else num(0) - PI - b2
    d = b * (R.f("I1", b2, k) - R.f("I1", b1, k))
    return d if (y1 + y2 > 0 if over else y2 > y1) else num(0) - d


def same(rep, funs, q, tag, what, v, w, angle):
    """compares values in which only the figure is free, for several figures"""
    if v is None:
        rep.undec("%s, %s" % (tag, what))
        return
    r = True if v.same(w) else None
    if r is None:
        seen = []
        for k, env in enumerate(({"a": 1.3, "b": 1.1}, {"a": 2.1, "b": 1.9}, {"a": 1.2, "b": 1.15})):
            try:
                x, y = value(funs, v, dict(env), k), value(funs, w, dict(env), k)
            except Exception:
                continue
            if x == x and y == y:
                seen.append(abs(wrap(x - y)) < 1e-7 if angle else abs(x - y) <= 1e-7 * max(1.0, abs(x)))
        r = all(seen) if seen else None
    if r is True:
        rep.ok("%s, %s" % (tag, what), q.where)
    elif r is False:
        rep.bad("special", tag, "the %s is not that of the line between the points" % what, q.where)
    else:
        rep.undec("%s, %s" % (tag, what))


FLAGS = ("xflip", "yflip", "ysignswap")


def flags(q):
    """which of the transformations of the configuration a path takes back; and the other conditions"""
    out, rest = {}, []
    for c, b in q.conds:
        k = cval(c.args[1]) if c.op == "item" and is_const(c.args[1]) else None
        if k in FLAGS:
            out[k] = bool(b)
        else:
            rest.append((c, b))
    return out, frozenset(rest)


def final(p, rep, f, it, paths, names, quiet):
    groups = {}
    for q in paths:
        fl, rest = flags(q)
        if set(fl) == set(FLAGS):
            groups.setdefault(rest, {})[tuple(fl[k] for k in FLAGS)] = q
    n = 0
    for rest, byf in groups.items():
        base = byf.get((False, False, False))
        if base is None:
            continue
        funs = Funs()
        funs.extra = Guess(OPAQUE)
        table = {}

        def vals(q):
            t = loopvars(it.reify(q.value, q.state), table)
            found = harvest(names, quiet, f.name, [t], f.where)
            t = functions_out(fold(names, quiet, f.name, t, found, f.where))
            P = dict((x, num(ratom_(x))) for x in list(f.pos) + [y.args[0] for y in table.values()])
            v = Npy(dict((mk("param", x), w) for x, w in P.items()), funs).ev(t)
            return [num(x) for x in v]
        try:
            v0 = vals(base)
        except Exception as e:
            rep.undec("%s: results (%s)" % (f.name, type(e).__name__))
            continue
        A = [inner(funs, x) for x in v0[:2]]
        if None in A:
            continue
        A1, A2 = rad(A[0]), rad(A[1]) - PI
        R = Ref(Npy({}, funs))
        for fl, q in byf.items():
            x, y = A1, A2
            if fl[0]:
                x, y = num(0) - x, num(0) - y
            if fl[1]:
                x, y = PI - y, PI - x
            if fl[2]:
                x, y = PI - x, PI - y
            try:
                v = vals(q)
            except Exception as e:
                rep.undec("%s: results (%s)" % (f.name, type(e).__name__))
                continue
            for k, w, what in ((0, R.wrap(deg(x)), "azimuth"), (1, R.wrap(deg(y + PI)), "back azimuth")):
                r = equal(funs, v[k], w)
                n += 1
                tag = "%s of points that are %s" % (what, ", ".join(
                    t for t, b in zip(("mirrored in longitude", "exchanged", "mirrored in latitude"), fl) if b) or "in order")
                if r is True:
                    rep.ok("%s: %s" % (f.name, tag), q.where)
                elif r is False:
                    rep.bad("azimuths", f.name, "the %s does not undo the transformation" % tag, q.where)
                else:
                    rep.undec("%s: %s" % (f.name, tag))
            d = v[2]
            keys = [k for k in d.atoms() if (funs.entry(k) or ("",))[0] == "I1"]
            b = num(ratom_("b"))
            if len(keys) == 2:
                x, y = ratom_(keys[0]), ratom_(keys[1])
                if d.same(b * (x - y)) or d.same(b * (y - x)):
                    rep.ok("%s: distance is the difference of the integrals" % f.name, q.where)
                elif equal(funs, d, b * (x - y)) is False and equal(funs, d, b * (y - x)) is False:
                    rep.bad("distance", f.name, "the distance is not the polar radius times the difference of the integrals", q.where)
                else:
                    rep.undec("%s: distance" % f.name)
            else:
                rep.undec("%s: distance" % f.name)
    if not n:
        rep.undec("%s: results" % f.name)


def inner(funs, x):
    """X of a value wrapped into the range from -180 to 180"""
    for k in x.atoms():
        e = funs.entry(k)
        if e and e[0] == "floor":
            X = e[1][0] * num(360) - num(180)
            if x.same(X - num(360) * ratom_(k)):
                return X
    return None
