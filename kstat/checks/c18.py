"""C18: coordinate systems share one interface and one set of conventions."""
import ast
from fractions import Fraction

from ..interp import Interp, Policy
from ..loader import Program
from ..poly import Norm, Rat, ratom, rconst
from ..iospec import pieces
from ..report import Report
from ..terms import T, mk, const, is_const, cval, walk, arg, fmt

TECHNIQUE = "constant-table audit and algebraic normal forms of path-wise value terms"
RULE = ("Tables: every datum names a defined ellipsoid, every ellipsoid has an equatorial axis and exactly one of the "
        "polar axis and the inverse flattening, and both agree with PROJ's definitions; predefined systems whose "
        "definition names an ellipsoid and a datum name consistent ones. Ellipsoid, parse_ellipsoid and the constructors "
        "pass each quantity to the slot of its meaning (rational normal forms). On every path of every class, project, "
        "transform, forward and inverse take (x, y[, inverse]), (other, x, y), (x, y, azimuth, distance) and (x1, y1, x2, "
        "y2) in this order and return (x, y), (x, y), (x, y, back azimuth) and (azimuth, back azimuth, distance), with "
        "angles equal to the geodesic's modulo one turn and inside one full-turn window, in degrees or, with radians=True, "
        "in radians.")
# PROJ's definitions: name -> (a, b, rf)
PROJ_ELLPS = {
    'MERIT': (6378137.0, None, 298.257), 'SGS85': (6378136.0, None, 298.257), 'GRS80': (6378137.0, None, 298.257222101),
    'IAU76': (6378140.0, None, 298.257), 'airy': (6377563.396, 6356256.910, None), 'APL4.9': (6378137.0, None, 298.25),
    'NWL9D': (6378145.0, None, 298.25), 'mod_airy': (6377340.189, 6356034.446, None),
    'andrae': (6377104.43, None, 300.0), 'danish': (6377019.2563, None, 300.0), 'aust_SA': (6378160.0, None, 298.25),
    'GRS67': (6378160.0, None, 298.247167427), 'GSK2011': (6378136.5, None, 298.2564151),
    'bessel': (6377397.155, None, 299.1528128), 'bess_nam': (6377483.865, None, 299.1528128),
    'clrk66': (6378206.4, 6356583.8, None), 'clrk80': (6378249.145, None, 293.4663),
    'clrk80ign': (6378249.2, None, 293.4660212936269), 'CPM': (6375738.7, None, 334.29),
    'delmbr': (6376428.0, None, 311.5), 'engelis': (6378136.05, None, 298.2566), 'evrst30': (6377276.345, None, 300.8017),
    'evrst48': (6377304.063, None, 300.8017), 'evrst56': (6377301.243, None, 300.8017),
    'evrst69': (6377295.664, None, 300.8017), 'evrstSS': (6377298.556, None, 300.8017),
    'fschr60': (6378166.0, None, 298.3), 'fschr60m': (6378155.0, None, 298.3), 'fschr68': (6378150.0, None, 298.3),
    'helmert': (6378200.0, None, 298.3), 'hough': (6378270.0, None, 297.0), 'intl': (6378388.0, None, 297.0),
    'krass': (6378245.0, None, 298.3), 'kaula': (6378163.0, None, 298.24), 'lerch': (6378139.0, None, 298.257),
    'mprts': (6397300.0, None, 191.0), 'new_intl': (6378157.5, 6356772.2, None), 'plessis': (6376523.0, 6355863.0, None),
    'PZ90': (6378136.0, None, 298.25784), 'SEasia': (6378155.0, 6356773.3205, None),
    'walbeck': (6376896.0, 6355834.8467, None), 'WGS60': (6378165.0, None, 298.3), 'WGS66': (6378145.0, None, 298.25),
    'WGS72': (6378135.0, None, 298.26), 'WGS84': (6378137.0, None, 298.257223563), 'sphere': (6370997.0, 6370997.0, None)}
PROJ_DATUMS = {"WGS84": ("WGS84",), "GGRS87": ("GRS80",), "NAD83": ("GRS80",), "NAD27": ("clrk66",),
               "potsdam": ("bessel",), "carthage": ("clrk80ign", "clrk80"), "hermannskogel": ("bessel",),
               "ire65": ("mod_airy",), "nzgd49": ("intl",), "OSGB36": ("airy",)}
MOD = ("numpy.mod", "numpy.remainder")
SIN, COS = ("math.sin", "numpy.sin"), ("math.cos", "numpy.cos")
ATAN2 = ("math.atan2", "numpy.arctan2")
TORAD = ("math.radians", "numpy.radians", "numpy.deg2rad")
TODEG = ("math.degrees", "numpy.degrees", "numpy.rad2deg")
PI = ("math.pi", "numpy.pi")
ROOT = ("math.sqrt", "numpy.sqrt")


# ---------------------------------------------------------------- tables
class Unknown(Exception):
    pass


def literal(e, env=None):
    """value of a constant expression over literals and module constants"""
    env = env or {}
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name) and e.id in env:
        return env[e.id]
    if isinstance(e, (ast.Tuple, ast.List)):
        return tuple(literal(x, env) for x in e.elts)
    if isinstance(e, ast.Dict):
        if any(k is None for k in e.keys):
            raise Unknown()
        return {literal(k, env): literal(v, env) for k, v in zip(e.keys, e.values)}
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "dict" and not e.args:
        return {k.arg: literal(k.value, env) for k in e.keywords if k.arg}
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return -literal(e.operand, env)
    if isinstance(e, ast.BinOp):
        a, b = literal(e.left, env), literal(e.right, env)
        try:
            if isinstance(e.op, ast.Add):
                return a + b
            if isinstance(e.op, ast.Sub):
                return a - b
            if isinstance(e.op, ast.Mult):
                return a * b
            if isinstance(e.op, ast.Div):
                return a / b
            if isinstance(e.op, ast.Mod):
                return a % b
        except Exception:
            raise Unknown()
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "format":
        try:
            return literal(e.func.value, env).format(*[literal(x, env) for x in e.args],
                                                    **{k.arg: literal(k.value, env) for k in e.keywords})
        except (AttributeError, IndexError, KeyError):
            raise Unknown()
    raise Unknown()


def constants(m):
    env, where = {}, {}
    for s in m.tree.body if hasattr(m, "tree") else m.node.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            try:
                env[s.targets[0].id] = literal(s.value, env)
                where[s.targets[0].id] = "%s:%d" % (m.rel, s.lineno)
            except Unknown:
                pass
    return env, where


def axes(row):
    a, b, rf = row[0], row[1], row[2]
    return a, (b if b is not None else a - a / rf if rf else None)


def tables(rep, m):
    env, where = constants(m)
    ell, dat = env.get("ELLIPSOID_DATA"), env.get("DATUM_ELLIPSOIDS")
    if not isinstance(ell, dict) or not isinstance(dat, dict):
        rep.undec("the ellipsoid or datum table is not a literal table")
        return {}, {}, env
    we, wd = where["ELLIPSOID_DATA"], where["DATUM_ELLIPSOIDS"]
    for k, row in sorted(ell.items()):
        con = "ellipsoid %s" % k
        if not isinstance(row, tuple) or len(row) < 3 or not isinstance(row[0], (int, float)):
            rep.bad("table-row", con, "%s is not (a, b, rf, name)" % (row,), we)
            continue
        a, b, rf = row[:3]
        if (b is None) == (rf is None):
            rep.bad("table-row", con, "defines %s of polar axis and inverse flattening" %
                    ("both" if b is not None else "neither"), we)
            continue
        if not 6.2e6 < a < 6.5e6 or b is not None and not (a * 0.99 < b <= a) or rf is not None and not rf > 100:
            rep.bad("table-row", con, "a=%s, b=%s, rf=%s is not an Earth ellipsoid" % (a, b, rf), we)
            continue
        if k in PROJ_ELLPS:
            (a1, b1), (a2, b2) = axes(row), axes(PROJ_ELLPS[k])
            if abs(a1 - a2) > 1e-3 or abs(b1 - b2) > 2e-3:
                rep.bad("table-value", con, "axes %.4f, %.4f differ from PROJ's %.4f, %.4f" % (a1, b1, a2, b2), we)
                continue
        rep.ok("%s is well formed and agrees with PROJ" % con, we)
    for k, v in sorted(dat.items()):
        con = "datum %s" % k
        if v not in ell:
            rep.bad("datum", con, "names the ellipsoid %r, which is not defined" % (v,), wd)
        elif k in PROJ_DATUMS and v not in PROJ_DATUMS[k]:
            rep.bad("datum", con, "uses the ellipsoid %s, PROJ's is %s" % (v, PROJ_DATUMS[k][0]), wd)
        else:
            rep.ok("%s resolves to a defined ellipsoid" % con, wd)
    return ell, dat, env


def params(s):
    r = {}
    for kv in s.split():
        if kv.startswith("+"):
            k, _, v = kv[1:].partition("=")
            r.setdefault(k, v)
    return r


def instances(rep, p, m, ell, dat, env):
    """definitions that name an ellipsoid and a datum name consistent ones"""
    geog = m.classes.get("GeographicalCRS")
    default = ""
    if geog is not None and "__init__" in geog.methods:
        f = geog.methods["__init__"]
        d = (f.defaults or {}).get("datum") if isinstance(f.defaults, dict) else None
        if d is None:
            a = f.node.args
            n = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
            d = n.get("datum")
        try:
            default = literal(d) if isinstance(d, ast.AST) else d
        except Unknown:
            default = None
    for s in m.tree.body if hasattr(m, "tree") else m.node.body:
        if not (isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name)
                and s.value.func.id in m.classes and isinstance(s.targets[0], ast.Name)):
            continue
        c, name, call = m.classes[s.value.func.id], s.targets[0].id, s.value
        init = c.lookup("__init__")
        if init is None or not any(b.name == "CRS" for b in c.mro()):
            continue
        where = "%s:%d" % (m.rel, s.lineno)
        pos = [x for x in init.pos if x != "self"]
        try:
            kw = {k: literal(v, env) for k, v in zip(pos, call.args)}
            kw.update({k.arg: literal(k.value, env) for k in call.keywords})
        except Unknown:
            rep.undec("the definition of %s is not a constant" % name)
            continue
        if "spheroid" in kw:
            text = "%s %s" % (kw["spheroid"], kw.get("datum", default) or "")
        elif "proj" in kw:
            text = kw["proj"]
        else:
            continue
        q = params(text)
        con = "definition of %s" % name
        e, d = q.get("ellps"), q.get("datum")
        if e is not None and ell and e not in ell:
            rep.bad("definition", con, "names the ellipsoid %s, which is not defined" % e, where)
        elif d is not None and dat and d not in dat and e is None:
            rep.bad("definition", con, "names the datum %s, which is not defined" % d, where)
        elif e is not None and d in dat and dat[d] != e:
            rep.bad("definition", con, "names the ellipsoid %s, but the datum %s is on %s" % (e, d, dat[d]), where)
        elif "a" in q and e is None and d is None and not ({"b", "f", "rf"} & set(q)):
            rep.bad("definition", con, "gives an equatorial axis without polar axis or flattening", where)
        elif e is None and d is None and "a" not in q:
            rep.bad("definition", con, "names no ellipsoid", where)
        else:
            rep.ok("%s names a defined, consistent ellipsoid" % con, where)


# ---------------------------------------------------------------- terms
class Flow(Policy):
    max_states = 400
    max_depth = 4

    def inline(self, i, f, recv, d):
        return f.module.name in ("karta.geodesy",) or (f.module.name == "karta.crs" and f.name not in (
            "parse_ellipsoid", "crs_from_wkt", "project", "transform", "forward", "inverse", "__init__"))


def extname(t):
    if t.op == "call" and t.args[0].op in ("ext", "builtin", "global"):
        return t.args[0].args[-1]
    return None


def cargs(t):
    return [a[1] for a in (t.args[1] if t.op == "call" else t.args[2])]


class Angles(object):
    """Rational normal forms in which pi is an atom, radians()/degrees() are spelled out and a remainder modulo one
    turn is an atom whose argument is kept."""
    def __init__(self):
        self.mods = {}
        self.trig = {}
        self.norm = Norm(self.atom)

    def __call__(self, t):
        return self.norm(t)

    def atom(self, t):
        if t.op == "ext" and t.args[0] in PI:
            return ratom("pi")
        if t.op == "bin" and t.args[0] == "%" or extname(t) in MOD:
            a, b = (t.args[1], t.args[2]) if t.op == "bin" else cargs(t)[:2]
            if t.op == "bin" and is_const(a) and isinstance(cval(a), str):
                return None
            k = self.norm.key(t)
            self.mods[k] = (self(a), self(b))
            return ratom(k)
        n = extname(t)
        if n in TORAD and cargs(t):
            return self(cargs(t)[0]) * ratom("pi") / rconst(180)
        if n in TODEG and cargs(t):
            return self(cargs(t)[0]) * rconst(180) / ratom("pi")
        if n in SIN + COS and cargs(t):
            k = ("sin" if n in SIN else "cos") + self.canon(self(cargs(t)[0]))
            return ratom(k)
        if n in ROOT and cargs(t):
            return ratom("root" + self.canon(self(cargs(t)[0])))
        if n in ("math.hypot", "numpy.hypot") and len(cargs(t)) == 2:
            a, b = [self(x) for x in cargs(t)]
            return ratom("root" + self.canon(a * a + b * b))
        if n in ATAN2 and len(cargs(t)) == 2:
            return ratom("atan2" + self.canon(self(cargs(t)[0])) + self.canon(self(cargs(t)[1])))
        if t.op == "bin" and t.args[0] == "**" and is_const(t.args[2]) and cval(t.args[2]) == 0.5:
            return ratom("root" + self.canon(self(t.args[1])))
        return None

    def canon(self, r):
        """a printable name equal for equal rational functions"""
        for k, v in self.trig.items():
            if same(v, r):
                return k
        k = "<%d>" % len(self.trig)
        self.trig[k] = r
        return k

    def split(self, r):
        """angle as (representative, low, width): the value is congruent to the representative modulo width and lies
        in [low, low+width); (value, None, None) without a remainder"""
        ks = [k for k in self.mods if mentions(r, k)]
        if not ks:
            return r, None, None
        if len(ks) > 1:
            return None, None, None
        k = ks[0]
        base = r.at(k, rconst(0)) if hasattr(r, "at") else evaluate(r, k, rconst(0))
        one = evaluate(r, k, rconst(1))
        if base is None or one is None:
            return None, None, None
        slope = one - base
        e, m = self.mods[k]
        if not same(r, slope * ratom(k) + base):
            return None, None, None
        e, _, _ = self.split(e) if any(mentions(e, x) for x in self.mods) else (e, None, None)
        if e is None:
            return None, None, None
        return slope * e + base, base, slope * m


def mentions(r, k):
    return any(k == a for poly in (r.n, r.d) for mono in poly for a, _ in mono)


def evaluate(r, k, v):
    """substitute a rational function for one atom"""
    def sub(poly):
        tot = rconst(0)
        for mono, c in poly.items():
            x = Rat({(): c})
            for a, e in mono:
                f = v if a == k else ratom(a)
                for _ in range(abs(e)):
                    x = x * f if e > 0 else x / f
            tot = tot + x
        return tot
    try:
        return sub(r.n) / sub(r.d)
    except ZeroDivisionError:
        return None


def same(a, b):
    try:
        return (a - b).zero()
    except Exception:
        return False


def number(r):
    """value of a constant rational function (pi as a float), None otherwise"""
    try:
        n = d = 0.0
        for poly, which in ((r.n, 0), (r.d, 1)):
            tot = 0.0
            for mono, c in poly.items():
                x = float(c)
                for a, e in mono:
                    if a != "pi":
                        return None
                    x *= 3.141592653589793 ** e
                tot += x
            if which:
                d = tot
            else:
                n = tot
        return n / d
    except Exception:
        return None


class Methods(object):
    def __init__(self, rep, p, m):
        self.rep, self.p, self.m = rep, p, m

    def where(self, f):
        return "%s (%s)" % (f.where, f.qual)

    def paths(self, c, f):
        self.rep.fn("%s:%s" % (c.name, f.name))
        try:
            return [q for q in Interp(self.p, Flow()).run(f, c)]
        except Exception as e:
            self.rep.undec("%s.%s: %s" % (c.name, f.name, type(e).__name__))
            return []

    def turn(self, q, names):
        """whether a path works in radians: True, False, None (no such option)"""
        for t, b in q.conds:
            u, v = t, b
            while u.op == "not":
                u, v = u.args[0], not v
            if u.op == "param" and u.args[0] == names:
                return v
        return None

    def angle(self, A, con, what, t, raw, radians, where, known=True, alt=()):
        """an angle result equals `raw` modulo one turn, inside one full-turn window"""
        r = A(t)
        rep, low, width = A.split(r)
        if rep is None:
            self.rep.undec("%s: %s is not a recognised expression of the geodesic's" % (con, what))
            return
        full = rconst(2) * ratom("pi") if radians else rconst(360)
        raws = raw if isinstance(raw, list) else [raw]
        ns = [number((rep - x) / full) for x in raws]
        n = next((x for x in ns if x is not None), None)
        if n is None:
            raw = raws[0]
            for other, name in alt:
                if number((rep - other) / full) is not None:
                    self.rep.bad("angle", "%s %s" % (con, what), "the %s is the %s" % (what, name), where)
                    return
            if self.known(A, rep, raws):
                self.rep.bad("angle", "%s %s" % (con, what), "the %s differs from the geodesic's" % what, where)
            else:
                self.rep.undec("%s: %s is not a recognised expression of the geodesic's" % (con, what))
            return
        if abs(n - round(n)) > 1e-9:
            self.rep.bad("angle", "%s %s" % (con, what), "the %s is off by %.6g turns" % (what, n), where)
            return
        if low is not None:
            w = number(width / full)
            lo = number(low / full)
            if w is None or lo is None:
                self.rep.undec("%s: window of the %s" % (con, what))
                return
            if abs(w - 1) > 1e-9:
                self.rep.bad("angle-window", "%s %s" % (con, what), "the %s is reduced modulo %.6g turns" % (what, w), where)
                return
            if not any(abs(lo - x) < 1e-9 for x in (self.windows or (-0.5, 0.0))):
                self.rep.bad("angle-window", "%s %s" % (con, what), "the %s starts at %.6g turns" % (what, lo), where)
                return
        elif not known:
            self.rep.bad("angle-window", "%s %s" % (con, what), "the %s is not reduced to one turn" % what, where)
            return
        self.rep.ok("%s: the %s is the geodesic's, in one full turn" % (con, what), where)

    windows = None

    # -- geodetic systems: results of the ellipsoidal geodesic
    def geodesic(self, con, c, f, q, A):
        """the call of the geodesic whose result this path returns"""
        found = []
        for t in walk(q.value, set()):
            if t.op == "mcall" and t.args[1] in ("fwd", "inv") and t not in found:
                found.append(t)
        return found

    def operands(self, con, f, call, want, where):
        a = call.args[2]
        names = [x for x in f.pos if x != "self"]
        if any(v.op == "star" for _, v in a):
            pos = [v for k, v in a if isinstance(k, int)]
            if len(pos) != 1 or pos[0].args[0] is not mk("param", "*args"):
                self.rep.undec("%s: arguments of the geodesic" % con)
            else:
                kw = [v for k, v in a if k == "**"]
                if f.kwarg and not kw:
                    self.rep.bad("option", con, "keyword arguments such as radians are not passed on", where)
                else:
                    self.rep.ok("%s: arguments are passed on in their order" % con, where)
            return
        pos = [v for k, v in sorted(((k, v) for k, v in a if isinstance(k, int)), key=lambda x: x[0])]
        got = [v.args[0] if v.op == "param" else None for v in pos[:4]]
        if len(pos) < 4 or None in got or len(names) < 4:
            self.rep.undec("%s: arguments of the geodesic" % con)
        elif got != names[:4]:
            self.rep.bad("argument-order", con, "parameters %s are handed to the geodesic as %s" % (names[:4], got), where)
        else:
            self.rep.ok("%s: arguments are passed on in their order" % con, where)
            if "radians" in f.pos + f.kwonly or f.kwarg:
                r = [v for k, v in a if k in ("radians", "**", 4)]
                if not r:
                    self.rep.bad("option", con, "radians is not passed on", where)

    def forward(self, c, f):
        con = "%s.%s" % (c.name, "forward")
        where = self.where(f)
        self.windows = None
        for q in self.paths(c, f):
            if q.kind != "return":
                continue
            A = Angles()
            v = q.value
            rad = self.turn(q, "radians")
            calls = self.geodesic(con, c, f, q, A)
            res = self.layout(con, v, 3, calls, where)
            if res is None:
                continue
            if calls:
                self.windows = (-0.5,)
                if len(calls) > 1:
                    self.rep.undec("%s: several geodesics" % con)
                    continue
                g = calls[0]
                if g.args[1] != "fwd":
                    self.rep.bad("problem", con, "solves the inverse geodetic problem", where)
                    continue
                self.operands(con, f, g, 4, where)
                raws = [A(mk("item", g, const(k))) for k in range(3)]
                self.coords(A, con, res[:2], raws[:2], where)
                self.angle(A, con, "back azimuth", res[2], raws[2], bool(rad), where)
            else:
                names = [x for x in f.pos if x != "self"]
                if len(names) < 4:
                    self.rep.undec("%s: parameters" % con)
                    continue
                x, y, az, d = [A(mk("param", n)) for n in names[:4]]
                azr = az if rad else az * ratom("pi") / rconst(180)
                sn, cs = ratom("sin" + A.canon(azr)), ratom("cos" + A.canon(azr))
                self.coords(A, con, res[:2], [x + d * sn, y + d * cs], where)
                half = ratom("pi") if rad else rconst(180)
                self.angle(A, con, "back azimuth", res[2], az + half, bool(rad), where, known=False,
                           alt=((az, "forward azimuth"),))

    def inverse(self, c, f):
        con = "%s.%s" % (c.name, "inverse")
        where = self.where(f)
        self.windows = None
        for q in self.paths(c, f):
            if q.kind != "return":
                continue
            A = Angles()
            self.A = A
            rad = self.turn(q, "radians")
            calls = self.geodesic(con, c, f, q, A)
            res = self.layout(con, q.value, 3, calls, where)
            if res is None:
                continue
            if calls:
                self.windows = (-0.5,)
                if len(calls) > 1:
                    self.rep.undec("%s: several geodesics" % con)
                    continue
                g = calls[0]
                if g.args[1] != "inv":
                    self.rep.bad("problem", con, "solves the forward geodetic problem", where)
                    continue
                self.operands(con, f, g, 4, where)
                raws = [A(mk("item", g, const(k))) for k in range(3)]
                for k, n in ((0, "azimuth"), (1, "back azimuth")):
                    alt = [(raws[j], m) for j, m in ((0, "azimuth"), (1, "back azimuth"), (2, "distance")) if j != k]
                    self.angle(A, con, n, res[k], raws[k], bool(rad), where, alt=alt)
                self.length(A, con, res[2], raws[2], where)
            else:
                names = [x for x in f.pos if x != "self"]
                if len(names) < 4:
                    self.rep.undec("%s: parameters" % con)
                    continue
                x1, y1, x2, y2 = [A(mk("param", n)) for n in names[:4]]
                dx, dy, pi = x2 - x1, y2 - y1, ratom("pi")

                def at(u, v):
                    return ratom("atan2" + A.canon(u) + A.canon(v))
                two = rconst(2)
                az = [at(dx, dy), pi / two - at(dy, dx), -at(-dx, dy), at(-dx, -dy) + pi, pi / two + at(-dy, dx),
                      -pi / two - at(dy, -dx), -pi / two + at(-dy, -dx), pi - at(dx, -dy)]
                az = az if rad else [x * rconst(180) / pi for x in az]
                half = pi if rad else rconst(180)
                back = [x + half for x in az]
                self.angle(A, con, "azimuth", res[0], az, bool(rad), where, alt=((back[0], "back azimuth"),))
                self.angle(A, con, "back azimuth", res[1], back, bool(rad), where, known=False,
                           alt=((az[0], "azimuth"),))
                d2 = (x2 - x1) * (x2 - x1) + (y2 - y1) * (y2 - y1)
                self.length(A, con, res[2], ratom("root" + A.canon(d2)), where)

    def layout(self, con, v, n, calls, where):
        if v.op in ("tuple", "list"):
            if any(x.op in ("star", "each") for x in v.args):
                self.rep.undec("%s: result layout" % con)
                return None
            if len(v.args) != n:
                self.rep.bad("result-layout", con, "returns %d values instead of %d" % (len(v.args), n), where)
                return None
            return list(v.args)
        if v in calls:
            return [mk("item", v, const(k)) for k in range(n)]
        self.rep.undec("%s: result layout" % con)
        return None

    def coords(self, A, con, got, want, where):
        for k, (t, w) in enumerate(zip(got, want)):
            r = A(t)
            name = "xy"[k]
            if same(r, w):
                self.rep.ok("%s: %s is in its place" % (con, name), where)
            elif same(r, want[1 - k]):
                self.rep.bad("result-layout", "%s %s" % (con, name), "%s holds the other coordinate" % name, where)
            elif self.known(A, r, want):
                self.rep.bad("formula", "%s %s" % (con, name), "%s is not the end point of the geodesic" % name, where)
            else:
                self.rep.undec("%s: %s is not a recognised expression" % (con, name))

    def length(self, A, con, t, want, where):
        r = A(t)
        if same(r, want):
            self.rep.ok("%s: the distance is in its place" % con, where)
        elif self.known(A, r, [want]):
            self.rep.bad("formula", con + " distance", "the distance is not the geodesic's", where)
        else:
            self.rep.undec("%s: the distance is not a recognised expression" % con)

    def known(self, A, r, want):
        """every atom of r is a parameter, an element of the geodesic's result, or a function already canonical"""
        inv = {k: t for t, k in A.norm.keys.items()}
        for poly in (r.n, r.d):
            for mono in poly:
                for a, _ in mono:
                    t = inv.get(a)
                    if t is None:
                        continue
                    if t.op == "param" or t.op == "item" and t.args[0].op == "mcall" and t.args[0].args[1] in ("fwd", "inv"):
                        continue
                    return False
        return True

    def project(self, c, f):
        con = "%s.project" % c.name
        where = self.where(f)
        names = [x for x in f.pos if x != "self"]
        if len(names) < 2 and not f.vararg:
            self.rep.bad("interface", con, "takes %d coordinates" % len(names), where)
            return
        for q in self.paths(c, f):
            if q.kind != "return":
                continue
            v = q.value
            calls = [t for t in walk(v, set()) if t.op == "mcall" and t.args[1] == "_proj" or
                     t.op in ("call", "mcall") and t.args[0].op == "attr" and t.args[0].args[1] == "_proj"]
            if calls:
                call = calls[0]
                a = call.args[1] if call.op == "call" else call.args[2]
                pos = [x for k, x in a if isinstance(k, int)]
                kw = {k: x for k, x in a if not isinstance(k, int)}
                if any(x.op == "star" for x in pos):
                    self.rep.undec("%s: arguments of the projection" % con)
                    continue
                got = [x.args[0] if x.op == "param" else None for x in pos[:2]]
                if len(got) < 2 or None in got:
                    self.rep.undec("%s: arguments of the projection" % con)
                elif got != names[:2]:
                    self.rep.bad("argument-order", con, "coordinates %s are projected as %s" % (names[:2], got), where)
                else:
                    self.rep.ok("%s: coordinates are projected in their order" % con, where)
                if "inverse" in names:
                    inv = kw.get("inverse", pos[2] if len(pos) > 2 else None)
                    neg, depth = inv, 0
                    if inv is None and "**" not in kw:
                        known = self.turn(q, "inverse")
                        if known is None or known is True:
                            self.rep.bad("option", con, "inverse is not passed to the projection", where)
                        else:
                            self.rep.ok("%s: forward projection on request" % con, where)
                    elif inv is not None and is_const(inv):
                        known = self.turn(q, "inverse")
                        if known is None or bool(cval(inv)) != known:
                            self.rep.bad("option", con, "inverse is %s whatever is asked for" % cval(inv), where)
                        else:
                            self.rep.ok("%s: inverse is passed on" % con, where)
                    elif inv is not None and inv.op == "not" and inv.args[0] is mk("param", "inverse"):
                        self.rep.bad("option", con, "inverse is negated", where)
                    elif inv is mk("param", "inverse"):
                        self.rep.ok("%s: inverse is passed on" % con, where)
                if v is not call:
                    if v.op == "tuple" and len(v.args) == 2 and all(
                            x.op == "item" and x.args[0] is call and is_const(x.args[1]) for x in v.args):
                        ks = [cval(x.args[1]) for x in v.args]
                        if ks != [0, 1]:
                            self.rep.bad("result-layout", con, "returns elements %s of the projection" % ks, where)
                    else:
                        self.rep.undec("%s: result of the projection" % con)
                continue
            if v.op != "tuple" or len(v.args) != 2:
                self.rep.undec("%s: result" % con)
                continue
            A = Angles()
            rad = self.turn(q, "radians")
            xs = [A(mk("param", n)) for n in names[:2]]
            want = [x * ratom("pi") / rconst(180) for x in xs] if rad else xs
            got = [A(x) for x in v.args]
            for k in range(2):
                if same(got[k], want[k]):
                    self.rep.ok("%s: %s is unchanged" % (con, "xy"[k]), where)
                elif self.known(A, got[k], want):
                    self.rep.bad("formula", "%s %s" % (con, "xy"[k]), "%s is not the identity's%s" %
                                 ("xy"[k], " in radians" if rad else ""), where)
                else:
                    self.rep.undec("%s: %s" % (con, "xy"[k]))

    def transform(self, c, f):
        con = "%s.transform" % c.name
        where = self.where(f)
        names = [x for x in f.pos if x != "self"]
        for q in self.paths(c, f):
            if q.kind != "return":
                continue
            calls = [t for t in walk(q.value, set()) if extname(t) == "pyproj.transform"]
            if not calls:
                self.rep.undec("%s: no pyproj.transform" % con)
                continue
            call = calls[0]
            pos = [x for k, x in call.args[1] if isinstance(k, int)]
            kw = {k: x for k, x in call.args[1] if isinstance(k, str)}
            slots = ["p1", "p2", "x", "y", "z"]
            got = dict(zip(slots, pos))
            got.update(kw)
            me, other = mk("param", "self"), mk("param", names[0]) if names else None

            def owner(t):
                for u in walk(t, set()):
                    if u is me:
                        return "self"
                    if u is other:
                        return "other"
                return None
            s, d = owner(got["p1"]) if "p1" in got else None, owner(got["p2"]) if "p2" in got else None
            if (s, d) == ("self", "other"):
                self.rep.ok("%s: from this system to the other" % con, where)
            elif s and d:
                self.rep.bad("argument-order", con, "transforms from %s to %s" % (s, d), where)
            else:
                self.rep.undec("%s: systems" % con)
            xy = [got[k].args[0] if k in got and got[k].op == "param" else None for k in ("x", "y")]
            if None in xy or len(names) < 3:
                self.rep.undec("%s: coordinates" % con)
            elif xy != names[1:3]:
                self.rep.bad("argument-order", con, "coordinates %s are transformed as %s" % (names[1:3], xy), where)
            else:
                self.rep.ok("%s: coordinates in their order" % con, where)
            if "z" in names and ("z" not in got or got["z"] is not mk("param", "z")):
                if "z" not in got:
                    self.rep.bad("option", con, "z is not transformed", where)
            v = q.value
            if v is not call and v.op in ("tuple", "list"):
                ks = [cval(x.args[1]) if x.op == "item" and x.args[0] is call and is_const(x.args[1]) else None
                      for x in v.args]
                if None not in ks and ks != list(range(len(ks))):
                    self.rep.bad("result-layout", con, "returns elements %s of the transform" % ks, where)


# ---------------------------------------------------------------- ellipsoids
def ellipsoid(rep, p, m):
    c = m.classes.get("Ellipsoid")
    if c is None or "__init__" not in c.methods:
        rep.undec("no Ellipsoid class")
        return
    f = c.methods["__init__"]
    rep.fn("Ellipsoid.__init__")
    con, where = "Ellipsoid", "%s (%s)" % (f.where, f.qual)
    P = lambda n: mk("param", n)
    for q in Interp(p, Flow()).run(f, c):
        if q.kind != "return":
            continue
        at = {}
        for k, v in q.state.attrs.items():
            at[k[1] if isinstance(k, tuple) else k] = v
        given = {}
        for t, b in q.conds:
            u, v = t, b
            while u.op == "not":
                u, v = u.args[0], not v
            if u.op == "isnone" and u.args[0].op == "param":
                given[u.args[0].args[0]] = not v
        N = Norm()
        a, b, fl = [at.get(k) for k in ("a", "b", "f")]
        if a is None or b is None or fl is None:
            rep.undec("Ellipsoid: attributes not assigned on a path")
            continue
        if N(a) is None or not same(N(a), N(P("a"))):
            rep.bad("ellipsoid", con + " a", "the equatorial axis is not the one given", where)
            continue
        ways = [("b", lambda: N(P("b"))), ("f", lambda: N(P("a")) - N(P("a")) * N(P("f"))),
                ("rf", lambda: N(P("a")) - N(P("a")) / N(P("rf")))]
        which = next((w for w in ways if given.get(w[0])), None)
        if which is None:
            continue
        B = which[1]()
        F = (N(a) - B) / N(a)
        for name, got, want in (("b", N(b), B), ("f", N(fl), F)):
            if same(got, want):
                rep.ok("Ellipsoid given %s: %s follows from it" % (which[0], name), where)
            else:
                rep.bad("ellipsoid", "%s %s from %s" % (con, name, which[0]),
                        "given %s, %s is %s" % (which[0], name, fmt({"b": b, "f": fl}[name])[:80]), where)


def from_table(t):
    """column of ELLIPSOID_DATA a term is read from"""
    if t.op == "item" and is_const(t.args[1]) and isinstance(cval(t.args[1]), int):
        b = t.args[0]
        if b.op == "item" and b.args[0].op == "global" and "ELLIPS" in str(b.args[0].args[1]) and \
                b.args[0].args[1] != "DATUM_ELLIPSOIDS":
            return cval(t.args[1])
    return None


def leaves(t, out, conds=()):
    if t.op == "fold":
        for cs, v in t.args[4]:
            leaves(v, out, tuple(cs))
        leaves(t.args[3], out, conds)
        return
    if t.op == "phi":
        for a in t.args:
            if isinstance(a, T):
                leaves(a, out, conds)
        return
    out.append((t, conds))


def ellipsoid_param(conds):
    """the proj.4 key the conditions select: +a=, +b=, +f= ..."""
    for t, b in conds:
        u, v = t, b
        while u.op == "not":
            u, v = u.args[0], not v
        if not v:
            continue
        if u.op == "mcall" and u.args[1] == "startswith" and u.args[2] and is_const(u.args[2][0][1]):
            s = cval(u.args[2][0][1])
            if isinstance(s, str):
                return s.lstrip("+").rstrip("=")
        if u.op == "cmp" and u.args[0] == "==":
            for x in u.args[1:]:
                if is_const(x) and isinstance(cval(x), str):
                    return cval(x).lstrip("+").rstrip("=")
    return None


SLOT = {"a": 0, "b": 1, "rf": 2, "name": 3}


def parse(rep, p, m):
    f = m.funcs.get("parse_ellipsoid")
    if f is None:
        rep.undec("no parse_ellipsoid")
        return
    rep.fn("parse_ellipsoid")
    where = "%s (%s)" % (f.where, f.qual)
    for q in Interp(p, Flow()).run(f, None):
        if q.kind != "return":
            continue
        v = q.value
        if v.op != "new" or getattr(v.args[0], "args", (None,))[0] is None:
            rep.undec("parse_ellipsoid: result")
            continue
        a = dict((k, x) for k, x in v.args[1])
        for slot in ("a", "b", "rf", "f", "name"):
            if slot not in a:
                continue
            out = []
            leaves(a[slot], out)
            for t, conds in out:
                if is_const(t) or t.op in ("lv", "undef"):
                    continue
                col = from_table(t)
                if col is not None:
                    if SLOT.get(slot) == col:
                        rep.ok("parse_ellipsoid: column %d is %s" % (col, slot), where)
                    elif slot in SLOT or slot == "f":
                        rep.bad("ellipsoid", "parse_ellipsoid %s" % slot, "column %d of the ellipsoid table is taken as %s"
                                % (col, slot), where)
                    continue
                key = ellipsoid_param(conds)
                if key is None:
                    continue
                N = Norm()
                vals = [x for x in walk(t, set()) if x.op == "item" and x.args[0].op == "mcall" and
                        x.args[0].args[1] in ("split", "partition")]
                vals = [x for x in vals if not any(y is not x and x in walk(y, set()) for y in vals)]
                if len(vals) != 1:
                    continue
                x = N(vals[0])
                r = N(t)
                want = {("a", "a"): x, ("b", "b"): x, ("rf", "rf"): x, ("f", "f"): x, ("rf", "f"): rconst(1) / x,
                        ("f", "rf"): rconst(1) / x}.get((slot, key))
                con = "parse_ellipsoid %s" % slot
                if want is None and key in ("a", "b", "f", "rf") and slot in SLOT:
                    rep.bad("ellipsoid", con, "+%s is taken as %s" % (key, slot), where)
                elif want is not None and not same(r, want):
                    if all(k in N.keys.values() for k in ()) and same(r * want, rconst(1)):
                        pass
                    rep.bad("ellipsoid", con, "+%s gives %s as %s" % (key, slot, fmt(t)[:80]), where)
                elif want is not None:
                    rep.ok("parse_ellipsoid: +%s is %s" % (key, slot), where)


def split_params(t):
    """proj.4 parameters of a string term: name -> value term, plus whole-string operands"""
    import re
    s, vals = pieces(t)
    if s is None:
        return None, None
    r, whole = {}, []
    for w in s.split():
        m = re.match("^\\+([A-Za-z_0-9]+)=\0(\\d+)\0$", w)
        if m:
            r[m.group(1)] = vals[int(m.group(2))]
            continue
        m = re.match("^\0(\\d+)\0$", w)
        if m:
            whole.append(vals[int(m.group(1))])
            continue
        m = re.match("^\\+([A-Za-z_0-9]+)=(.*)$", w)
        if m:
            r[m.group(1)] = const(m.group(2))
    return r, whole


def geod_source(t):
    """(kind, what) the geodesic is computed on: the parsed text, or axes of an ellipsoid"""
    a, whole = split_params(t)
    return a, whole


def constructors(rep, p, m):
    for c in m.classes.values():
        if not any(b.name == "CRS" for b in c.mro()) or "__init__" not in c.methods:
            continue
        f = c.methods["__init__"]
        rep.fn("%s.__init__" % c.name)
        where = "%s (%s)" % (f.where, f.qual)
        con = "%s.__init__" % c.name
        for q in Interp(p, Flow()).run(f, c):
            if q.kind != "return":
                continue
            at = {}
            for k, v in q.state.attrs.items():
                at[k[1] if isinstance(k, tuple) else k] = v
            ell, geod, proj, ref = [at.get(k) for k in ("ellipsoid", "_geod", "_proj", "ref_proj4")]
            if geod is None or ell is None:
                continue
            src = [x for x in walk(ell, set()) if x.op == "call" and x.args[0].op == "func" and
                   str(x.args[0].args[0]).endswith("parse_ellipsoid")] if ell.op != "call" else [ell]
            text = cargs(src[0])[0] if src and cargs(src[0]) else None
            if extname(geod) != "pyproj.Geod" or text is None:
                rep.undec("%s: geodesic or ellipsoid" % con)
                continue
            keys = {k: x for k, x in geod.args[1]}
            kw = {k: x for k, x in keys.items() if isinstance(k, str)}
            g0 = keys.get(0, kw.get("initstring"))
            if g0 is not None:
                a, whole = split_params(g0)
            else:
                a, whole = {k: v for k, v in kw.items()}, []
            if a is None:
                rep.undec("%s: definition of the geodesic" % con)
            elif whole and whole[0] is text:
                rep.ok("%s: the geodesic and the ellipsoid share their definition" % con, where)
            elif not whole and a and text.op == "param" and all(is_const(x) for x in a.values()):
                rep.bad("ellipsoid", con, "the geodesic is always on +%s, the ellipsoid is given by %s" % (
                    " +".join("%s=%s" % (k, cval(x)) for k, x in a.items()), fmt(text)[:40]), where)
            elif whole:
                rep.bad("ellipsoid", con, "the geodesic is defined by %s, the ellipsoid by %s" %
                        (fmt(whole[0])[:40], fmt(text)[:40]), where)
            else:
                good = True
                for k, x in a.items():
                    if x.op == "attr" and x.args[0] is ell:
                        if x.args[1] != k:
                            good = False
                            rep.bad("ellipsoid", con, "the geodesic's %s is the ellipsoid's %s" % (k, x.args[1]), where)
                    else:
                        good = None
                if good and "a" in a and ({"b", "f", "rf"} & set(a)):
                    rep.ok("%s: the geodesic runs on the ellipsoid's axes" % con, where)
                elif good:
                    rep.bad("ellipsoid", con, "the geodesic takes only %s of the ellipsoid" % sorted(a), where)
                elif good is None:
                    rep.undec("%s: definition of the geodesic" % con)
            if proj is not None and ref is not None and extname(proj) == "pyproj.Proj":
                pt = cargs(proj)[0] if cargs(proj) else None
                if pt is ref:
                    rep.ok("%s: the projection and its text agree" % con, where)
                elif pt is not None and pt.op == "param" and ref.op == "param":
                    rep.bad("definition", con, "ref_proj4 is %s, the projection %s" % (fmt(ref)[:40], fmt(pt)[:40]), where)
                else:
                    rep.undec("%s: ref_proj4" % con)
                # every string the constructor is given enters the definition
                if pt is not None:
                    used = set(walk(pt, set()))
                    for n in ("spheroid", "datum", "proj"):
                        if n in f.pos and mk("param", n) not in used and not is_const(pt):
                            rep.bad("definition", con, "%s does not enter the projection's definition" % n, where)


def texts(rep, p, m):
    """definition strings: an existing one is returned, a missing one is derived from the other"""
    base = m.classes.get("CRS")
    if base is None:
        return
    for n, own, other, imp, exp in (("get_proj4", "ref_proj4", "ref_wkt", "ImportFromWkt", "ExportToProj4"),
                                    ("get_wkt", "ref_wkt", "ref_proj4", "ImportFromProj4", "ExportToWkt")):
        f = base.lookup(n)
        if f is None:
            continue
        rep.fn("CRS.%s" % n)
        where = "%s (%s)" % (f.where, f.qual)
        paths = []
        for c in m.classes.values():
            if base in c.mro():
                g = c.lookup(n)
                paths += [q for q in Interp(p, Flow()).run(g, c) if q.kind == "return"]
        for q in paths:
            v = q.value
            if v.op == "attr" and v.args[0] is mk("param", "self"):
                if v.args[1] == own:
                    rep.ok("CRS.%s returns its own text" % n, where)
                elif v.args[1] == other:
                    rep.bad("definition", "CRS.%s" % n, "returns %s" % other, where)
                continue
            if v.op == "mcall" and v.args[1].startswith("ExportTo"):
                if v.args[1] not in (exp, exp.replace("ExportToWkt", "ExportToPrettyWkt")):
                    rep.bad("definition", "CRS.%s" % n, "derives the text by %s" % v.args[1], where)
                    continue
                im = [e.term for e in q.events if e.kind == "mcall" and e.term.args[1].startswith("ImportFrom")]
                if len(im) == 1:
                    src = {x.args[1] for x in walk(im[0], set()) if x.op == "attr" and x.args[0] is mk("param", "self")}
                    if im[0].args[1] == imp and other in src:
                        rep.ok("CRS.%s derives the text from %s" % (n, other), where)
                    elif src and other not in src or im[0].args[1] in ("ImportFromWkt", "ImportFromProj4"):
                        rep.bad("definition", "CRS.%s" % n, "reads %s by %s" % (sorted(src), im[0].args[1]), where)


def wkt(rep, p, m, dat):
    """systems built from a parsed definition keep its datum"""
    f = m.funcs.get("crs_from_wkt")
    if f is None:
        return
    rep.fn("crs_from_wkt")
    where = "%s (%s)" % (f.where, f.qual)
    for q in Interp(p, Flow()).run(f, None):
        if q.kind != "return" or q.value.op != "new":
            continue
        cls = q.value.args[0].args[0]
        cname = getattr(cls, "name", str(cls)).rsplit(".", 1)[-1]
        geo = [b for t, b in q.conds if t.op == "mcall" and t.args[1] == "IsGeographic"]
        con = "crs_from_wkt %s" % cname
        if geo and geo[0] != (cname == "GeographicalCRS"):
            rep.bad("definition", con, "%s definitions become %s" % ("geographical" if geo[0] else "projected", cname), where)
            continue
        a = {k: x for k, x in q.value.args[1]}
        if cname == "GeographicalCRS":
            d = a.get("datum")
            if d is None:
                rep.bad("definition", con + " datum", "the datum of the definition is replaced by the default", where)
            elif is_const(d) and cval(d):
                rep.bad("definition", con + " datum", "the datum is always %s" % cval(d), where)
            else:
                rep.ok("crs_from_wkt: the datum of the definition is kept", where)
            s = a.get("spheroid")
            if s is not None:
                look = [x for x in walk(s, set()) if x.op == "item" and x.args[0].op == "global"]
                for x in look:
                    if x.args[0].args[1] != "DATUM_ELLIPSOIDS":
                        rep.bad("definition", con, "the spheroid is looked up in %s" % x.args[0].args[1], where)
        else:
            rep.ok("crs_from_wkt: projected definitions become ProjectedCRS", where)


def check(repo=None):
    rep = Report("C18", RULE)
    rep.minimum = 10
    rep.assumptions = ["pyproj and OSR implement their documented interface: Geod.fwd gives (x, y, back azimuth), "
                       "Geod.inv (azimuth, back azimuth, distance), angles in [-180, 180]",
                       "planar azimuths are reported in (-180, 180], planar back azimuths in [0, 360)"]
    p = Program(repo, pyx=False)
    m = p.modules["karta.crs"]
    ell, dat, env = tables(rep, m)

    def part(name, fn, *a):
        try:
            fn(*a)
        except Exception as e:
            rep.undec("%s: %s %s" % (name, type(e).__name__, str(e)[:80]))
    part("instances", instances, rep, p, m, ell, dat, env)
    part("ellipsoid", ellipsoid, rep, p, m)
    part("parse_ellipsoid", parse, rep, p, m)
    part("constructors", constructors, rep, p, m)
    part("texts", texts, rep, p, m)
    part("wkt", wkt, rep, p, m, dat)
    base = m.classes.get("CRS")
    ms = Methods(rep, p, m)
    for c in m.classes.values():
        if base is None or base not in c.mro() or c is base:
            continue
        for n in ("project", "transform", "forward", "inverse"):
            f = c.lookup(n)
            if f is None:
                rep.bad("interface", "%s.%s" % (c.name, n), "%s has no %s" % (c.name, n), c.name)
                continue
            part("%s.%s" % (c.name, n), getattr(ms, n), c, f)
    return rep
