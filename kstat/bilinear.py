"""Path-wise normal form of the compiled bilinear kernels: corners read, weights, bounds and nodata tests."""
from .interp import Interp
from .poly import Norm, Rat, rconst, ratom
from .rasterspec import GridPolicy
from .terms import T, mk, is_const, cval, walk

KERNELS = ("sample_bilinear_uint", "sample_bilinear_int", "sample_bilinear_double")


class KernelPolicy(GridPolicy):
    max_depth = 3
    max_states = 4000

    def inline(self, interp, f, recv, depth):
        return f.module.name == "karta.raster.crfuncs"


def truncated(bl):
    """axes whose position is truncated toward zero on a path that does not exclude negative positions"""
    out = set()
    lo, _ = bl.corner.facts(bl.conds)
    for x in walk(bl.value):
        if ncall(x, "int") and bl.corner.axis(x.args[1][0][1]):
            a = bl.corner.axis(x.args[1][0][1])
            if bl.corner.integral.get(a) is not True and not inside(ratom(a), lo):
                out.add(a)
    return out


def ncall(t, *names):
    return t.op == "call" and t.args[0].op in ("ext", "builtin", "global") and \
        str(t.args[0].args[0]).split(".")[-1] in names and len(t.args[1]) == 1


class Corner(object):
    """normal forms along one path: i, j positions; Fi, Fj their floors"""

    def __init__(self, f, conds):
        self.pars = f
        self.integral = {}
        for c, b in conds:
            if c.op == "cmp" and c.args[0] == "==":
                for x, y in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
                    if x.op == "bin" and x.args[0] == "%" and is_const(x.args[2]) and cval(x.args[2]) == 1 and \
                            is_const(y) and cval(y) == 0:
                        a = self.axis(x.args[1])
                        if a:
                            self.integral[a] = b
                    elif self.axis(x) and is_const(y) and cval(y) == 0 and b:
                        self.integral[self.axis(x)] = True
                    elif self.axis(x) and self.floor(y) == self.axis(x):
                        self.integral[self.axis(x)] = b
        self.norm = Norm(self.atom)
        self.unknown = False

    def axis(self, t):
        if t.op == "item" and t.args[0].op == "param" and t.args[0].args[0] in ("I", "J"):
            return t.args[0].args[0].lower()
        if ncall(t, "float"):
            return self.axis(t.args[1][0][1])
        return None

    def floor(self, t):
        if t.op == "bin" and t.args[0] == "//" and is_const(t.args[2]) and cval(t.args[2]) == 1:
            return self.axis(t.args[1])
        if ncall(t, "floor"):
            return self.axis(t.args[1][0][1])
        return None

    def whole(self, t):
        """is the value of t an integer"""
        if is_const(t):
            return float(cval(t)).is_integer()
        if self.floor(t):
            return True
        a = self.axis(t)
        if a:
            return self.integral.get(a) is True
        if ncall(t, "int", "float", "floor", "ceil"):
            return ncall(t, "int", "floor", "ceil") or self.whole(t.args[1][0][1])
        if t.op == "bin" and t.args[0] in ("+", "-", "*"):
            return self.whole(t.args[1]) and self.whole(t.args[2])
        if t.op == "attr" or t.op == "item" and t.args[0].op == "attr":
            return True
        return False

    def atom(self, t):
        a = self.axis(t)
        if a:
            return a
        a = self.floor(t)
        if a:
            return a if self.integral.get(a) is True else "F" + a
        if ncall(t, "int"):
            x = t.args[1][0][1]
            if self.whole(x):
                return x
            if self.axis(x):
                # truncation is the floor for positions that are not negative only
                return "F" + self.axis(x)
            self.unknown = True
            return None
        if ncall(t, "float"):
            return t.args[1][0][1]
        z = self.zread(t)
        if z is not None:
            a, b = self.norm(z[0]), self.norm(z[1])
            return "Z[%r,%r]" % (a, b)
        if t.op == "item" and t.args[0].op == "attr" and t.args[0].args[1] == "shape" and is_const(t.args[1]):
            return ("m", "n")[cval(t.args[1])] if cval(t.args[1]) in (0, 1) else None
        if t.op == "len" and t.args[0].op == "param" and t.args[0].args[0] == "Z":
            return "m"
        return None

    def zread(self, t):
        if t.op == "item" and t.args[0].op == "param" and t.args[0].args[0] == "Z" and t.args[1].op == "tuple" and \
                len(t.args[1].args) == 2:
            return t.args[1].args
        if t.op == "item" and t.args[0].op == "item" and t.args[0].args[0].op == "param" and \
                t.args[0].args[0].args[0] == "Z":
            return t.args[0].args[1], t.args[1]
        return None

    def zreads(self, t):
        out = []
        for x in walk(t):
            z = self.zread(x)
            if z is not None:
                out.append((x, self.norm(z[0]), self.norm(z[1])))
        return out

    def facts(self, conds):
        """(lower, upper): normal forms known to be >= 0, and (nf, axis length atom) known to be nf <= len - 1"""
        lo, hi = [], []
        for c, b in conds:
            if c.op != "cmp" or c.args[0] not in ("<", "<="):
                continue
            o, x, y = c.args
            if not b:
                o, x, y = ("<=" if o == "<" else "<"), y, x
            x, y = self.norm(x), self.norm(y)
            # x o y
            d = y - x            # >= 0 or > 0
            at_ = d.atoms()
            for ln in ("m", "n"):
                if ln in at_:
                    r = ratom(ln) - d
                    if ln not in r.atoms():
                        # r <= len  (or r < len); whole numbers: r <= len - 1
                        hi.append((r if o == "<" else r - rconst(1), ln))
                    break
            else:
                lo.append(d if o == "<=" else d - rconst(1))
        return lo, hi


def inside(nf, lo):
    return any((nf - l).const() is not None and (nf - l).const() >= 0 for l in lo) or \
        (nf.const() is not None and nf.const() >= 0)


def below(nf, ln, hi):
    return any(k == ln and (u - nf).const() is not None and (u - nf).const() >= 0 for u, k in hi)


class Blend(object):
    """one stored result"""
    def __init__(self, kernel, e, value, conds):
        self.kernel, self.e, self.value, self.conds = kernel, e, value, conds
        self.corner = Corner(None, conds)
        self.reads = self.corner.zreads(value)


def stores(p, name):
    m = p.modules.get("karta.raster.crfuncs")
    f = m.funcs.get(name) if m else None
    if f is None:
        return None, []
    i = Interp(p, KernelPolicy())
    out = []
    for pa in i.run(f, None):
        seen = set()
        for e in pa.events:
            if e.kind == "store" and e.term.op == "call" and e not in seen:
                out.append(Blend(name, e, e.extra[1], e.conds))
    return f, out


def is_na(t):
    while t.op == "call" and len(t.args[1]) == 1 and t.args[0].op in ("ext", "builtin"):
        t = t.args[1][0][1]
    return t.op == "param" and t.args[0] in ("na", "nodata", "nodata_value")


def na_tested(bl):
    """corner reads that are compared with the nodata value before the blend, as (row, col) normal form reprs"""
    out = set()
    for c, b in bl.conds:
        if b:
            continue
        ops = c.args[1:] if c.op == "cmp" and c.args[0] == "==" else ()
        if ops and any(is_na(x) for x in ops):
            for x in ops:
                for _, a, k in bl.corner.zreads(x):
                    out.add((repr(a), repr(k)))
    return out


def blend_value(bl):
    v = bl.value
    if ncall(v, "int", "round"):
        v = v.args[1][0][1]
    return bl.corner.norm(v)


def expected(bl):
    """the candidates for the blend of the four cells around (i, j), as normal forms"""
    out = []
    rows = lows("i", bl.corner)
    cols = lows("j", bl.corner)
    one = rconst(1)
    for r in rows:
        for c in cols:
            t = rconst(0)
            for a, wa in ((r, r + one - ratom("i")), (r + one, ratom("i") - r)):
                for b, wb in ((c, c + one - ratom("j")), (c + one, ratom("j") - c)):
                    t = t + ratom("Z[%r,%r]" % (a, b)) * wa * wb
            out.append(t)
    return out


def lows(x, corner):
    if corner.integral.get(x) is True:
        return [ratom(x) - rconst(1), ratom(x)]
    return [ratom("F" + x)]
