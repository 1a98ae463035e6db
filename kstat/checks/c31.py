"""C31: points laid out along a line are equally spaced."""
import ast

from ..interp import Interp
from ..loader import Program
from ..poly import Norm
from ..report import Report
from ..results import ResultPolicy
from ..terms import T, mk, const, cval, walk, contains, item

TECHNIQUE = "inductive invariants of the walking loops, decided on normal forms of the loop bodies' value terms"
RULE = ("The loops of to_points and to_npoints that walk along the segments are reduced to one value term per loop variable and path "
        "through the body. One variable must carry the distance since the last point (or what is left of the step): a path that lays "
        "out a point walks exactly what is left of the step and starts a new one; a path that reaches the end of a segment adds the "
        "remaining length of the segment to the distance (takes it off what is left); a point is laid out whenever what is left fits "
        "in the segment; the variable is carried over to the next segment unchanged; the step is the one asked for; the walk starts "
        "from the present position in the direction of the segment and the points go into the result in the line's system.")
MOD = "karta.vector.geometry"
METHODS = ("to_points", "to_npoints")


class P31(ResultPolicy):
    no_inline = ResultPolicy.no_inline + ("walk", "displacement", "cumulength", "segments", "segment_tuples", "length", "__getitem__",
                                          "__init__")


class Loops(Interp):
    """keeps the body of every loop that is followed"""
    def __init__(self, *a, **k):
        Interp.__init__(self, *a, **k)
        self.bodies = []

    def summarise(self, s, pre, itt, depth, lvs, alv, ends, breaks, names, tnames, mapping):
        res = Interp.summarise(self, s, pre, itt, depth, lvs, alv, ends, breaks, names, tnames, mapping)
        nb, ne = len(pre.conds), len(pre.events)
        rows = []
        for e in ends:
            rows.append((dict((n, self.reify(v, e) if isinstance(v, T) else v) for n, v in e.env.items()),
                         [(self.reify(t, e), b) for t, b in e.conds[nb:]],
                         [self.reify(x.term, e) for x in e.events[ne:] if isinstance(x.term, T)]))
        out = dict((n, self.reify(v, res)) for n, v in res.env.items() if isinstance(v, T))
        init = dict((n, self.reify(v, pre)) for n, v in pre.env.items() if isinstance(v, T))
        self.bodies.append((s, dict(lvs), init, rows, out, len(breaks), itt))
        return res


def walks(row):
    return [t for t in row[2] if t.op == "mcall" and t.args[1] == "walk"]


def named(t, name, pos):
    for k, v in t.args[2]:
        if k == name or k == pos:
            return v
    return None


def analyse(p, rep, c, f):
    """one line class and method"""
    it = Loops(p, P31())
    paths = it.run(f, c)
    tag = f.qual
    found = [b for b in it.bodies if any(walks(r) for r in b[3])]
    if not found:
        rep.undec("%s: no loop that walks along the line" % tag)
        return
    # innermost bodies are followed first
    s, lvs, init, rows, out, breaks, itt = found[0]
    outer = [b for b in found if b is not found[0] and any(n is s for n in ast.walk(b[0])) and b[0] is not s]
    n = Norm()
    where = "%s:%d" % (f.module.rel, s.lineno)
    laid = [r for r in rows if walks(r)]
    rest = [r for r in rows if not walks(r)]
    if breaks or not rest or any(len(walks(r)) != 1 for r in laid):
        rep.undec("%s: shape of the loop" % tag)
        return
    S = step_of(f, paths, lvs, init)
    best = None
    for name, lv in lvs.items():
        if name not in init or not isinstance(init[name], T):
            continue
        for form in ("since", "left"):
            got = candidate(n, name, lv, form, laid, rest, init, S, f)
            if got is None:
                continue
            good = sum(1 for x in got if x[0] is True)
            if best is None or good > best[0]:
                best = (good, name, form, got)
    if best is None or best[0] < 2:
        rep.undec("%s: what carries the distance since the last point" % tag)
        return
    good, name, form, got = best
    for ok, what in got:
        if ok is True:
            rep.ok("%s: %s" % (tag, what), where)
        elif ok is False:
            rep.bad("spacing", tag, "not so: %s" % what, where)
        else:
            rep.undec("%s: %s" % (tag, what))
    # the carried variable passes through the loops around unchanged
    for so, lo, io, ro, oo, bo, _ in outer:
        lv = lo.get(name)
        what = "%s is carried from segment to segment" % ("the distance" if form == "since" else "what is left of the step")
        if lv is None or init.get(name) is not lv:
            if lv is not None and isinstance(init.get(name), T) and init[name].op == "const":
                rep.bad("spacing", tag, "not so: %s" % what, where)
            else:
                rep.undec("%s: %s" % (tag, what))
            continue
        for r in ro:
            v = r[0].get(name)
            if v is out.get(name) or isinstance(v, T) and v.op in ("fold", "last") and v is not lv:
                rep.ok("%s: %s" % (tag, what), where)
            elif isinstance(v, T) and (v is lv or v.op == "const"):
                rep.bad("spacing", tag, "not so: %s" % what, where)
            else:
                rep.undec("%s: %s" % (tag, what))
        init = io
    direction(rep, tag, where, laid, lvs)
    lengths(rep, tag, where, laid, rest, lvs, compared(n, laid, rest, lvs, name))
    flat(p, rep, tag, where, it, it.bodies)
    system(rep, tag, it, paths)


def compared(n, laid, rest, lvs, name):
    """the lengths that what is left of the step is compared with"""
    out = []
    for r in rest:
        for t, b in r[1]:
            if t.op == "cmp" and t.args[0] in ("<", "<=") and (contains(t, lvs[name]) or any(x.args[1] == "distance" for x in measures(t) if x.op == "mcall")):
                out += [x for x in (t.args[1], t.args[2]) if x is not lvs[name] and (x.op == "lv" or x.op == "mcall" and
                        x.args[1] in ("distance", "displacement"))]
    return list(dict.fromkeys(out))


def step_of(f, paths, lvs, init):
    ps = [x for x in f.pos if x != "self"]
    return mk("param", ps[0]) if ps else None


def candidate(n, name, lv, form, laid, rest, init, S, f):
    """[(True/False/None, statement)] under the reading that lv is the distance since the last point / what is left"""
    L = n(lv)
    out = []
    steps = []
    for env, conds, ev in laid:
        w = named(walks((env, conds, ev))[0], "distance", 0)
        if w is None or not isinstance(env.get(name), T):
            return None
        W, V = n(w), n(env[name])
        if form == "since":
            st = W + L
            if contains(w, lv) and any(x in st.atoms() for x in L.atoms()):
                return None
            if not contains(w, lv):
                st = None if not V.zero() else W + L
            steps.append((st, V.zero(), w))
        else:
            if contains(env[name], lv) or env[name].op == "const":
                return None
            steps.append((V, W.same(L), w))
    if form == "since":
        for st, zero, w in steps:
            if st is None:
                return None
            clean = not any(x in st.atoms() for x in L.atoms())
            out.append((clean, "a point is laid out where the distance since the last one is the step"))
            out.append((zero, "after a point the distance starts at zero"))
    else:
        for st, same, w in steps:
            out.append((same, "a point is laid out where what is left of the step has been walked"))
    want = None
    if form == "since" and all(x[0] for x in out):
        want = steps[0][0]
    if form == "left":
        want = steps[0][0]
    if not any(x[0] is True for x in out):
        return None
    if want is not None:
        first = n(init[name])
        out.append(((first.zero() or init[name].op == "lv") if form == "since" else first.same(want) or
                    (None if init[name].op == "lv" else False), "the first point is one whole step away"))
        if f.name == "to_points":
            out.append((want.same(n(S)), "the step is the spacing that is asked for"))
        else:
            out.append((spaces(n, want, S), "the step is the length over the number of spaces"))
    w0 = steps[0][2]
    W = n(w0)
    for env, conds, ev in rest:
        v = env.get(name)
        if not isinstance(v, T):
            return None
        d = n(v) - L if form == "since" else L - n(v)
        q = None
        for t, b in conds:
            if t.op == "cmp" and t.args[0] in ("<", "<="):
                lo, hi = (t.args[1], t.args[2]) if not b else (t.args[2], t.args[1])
                # not laid out: what is left is more than q;  not (lo <= hi) has lo > hi
                a, z = n(lo), n(hi)
                e = a - z
                for cand in measures(t):
                    Q = n(cand)
                    k = e - (W - Q)
                    if k.zero():
                        q = Q
        if q is None:
            out.append((fits(n, conds, W, want), "a point is laid out whenever what is left of the step fits in the segment"))
            q = [n(x) for t, _ in conds for x in measures(t)]
        else:
            out.append((True, "a point is laid out whenever what is left of the step fits in the segment"))
            q = [q]
        r = any(d.same(x) for x in q)
        if not r:
            known = set(L.atoms()) | set(W.atoms()) | (set(want.atoms()) if want is not None else set())
            for x in q:
                known |= set(x.atoms())
            r = False if q and set(d.atoms()) <= known else None
        out.append((r, "the rest of a segment counts towards the step"))
    return out


def measures(t):
    """lengths a condition compares with: distances, and loop variables that hold them"""
    out = []
    for x in walk(t, set()):
        if x.op == "mcall" and x.args[1] in ("distance", "displacement") or x.op == "lv" or \
                x.op == "attr" and x.args[1] == "length":
            out.append(x)
    return out


def fits(n, conds, W, want):
    """False when what a length is compared with is definitely not what is left of the step"""
    k = set(W.atoms()) | (set(want.atoms()) if want is not None else set())
    for t, b in conds:
        if t.op == "cmp" and t.args[0] in ("<", "<="):
            for x in measures(t):
                q = set(n(x).atoms())
                if x.op not in ("mcall", "lv") or q <= set(W.atoms()):
                    continue
                e = set((n(t.args[1]) - n(t.args[2])).atoms())
                if q <= e and e & k and e <= k | q:
                    return False
    return None


def spaces(n, want, S):
    """L / (n - 1)"""
    for t, key in list(n.keys.items()):
        if key not in want.atoms() or t is S or not contains(t, mk("param", "self")) and not walk_new(t):
            continue
        Q = n(t)
        for k in (1, 0, 2):
            if (Q - want * (n(S) - n(const(k)))).zero():
                return k == 1
    return None


def walk_new(t):
    return any(x.op == "new" for x in walk(t, set()))


def direction(rep, tag, where, laid, lvs):
    """the walk goes from the present position, which then is where it led"""
    for r in laid:
        w = walks(r)[0]
        pos = w.args[0]
        names = [k for k, v in lvs.items() if v is pos]
        if not names:
            rep.undec("%s: the position that is walked from" % tag)
            continue
        after = r[0].get(names[0])
        if after is w:
            rep.ok("%s: the walk goes on from the point laid out" % tag, where)
        elif after is pos:
            rep.bad("spacing", tag, "the next walk does not start at the point that was laid out", where)
        else:
            rep.undec("%s: the next position" % tag)
        az = named(w, "azimuth", 1)
        seg = [x for x in walk(az, set()) if x.op == "mcall" and x.args[1] == "azimuth"] if az is not None else []
        if len(seg) == 1 and az is seg[0]:
            a, b = end(seg[0].args[0]), end(named(seg[0], "other", 0))
            if a is None or b is None or a[0] is not b[0]:
                rep.undec("%s: the direction of the walk" % tag)
            elif (a[1], b[1]) == (0, 1):
                rep.ok("%s: the walk goes along the segment" % tag, where)
            else:
                rep.bad("spacing", tag, "the walk goes from vertex %s to vertex %s of the segment" % (a[1], b[1]), where)
        else:
            rep.undec("%s: the direction of the walk" % tag)


def end(t):
    if isinstance(t, T) and t.op == "item" and t.args[1].op == "const":
        return t.args[0], cval(t.args[1])
    return None


def lengths(rep, tag, where, laid, rest, lvs, qs):
    """what is compared with the step is the length from the present position to the end of the segment"""
    w = walks(laid[0])[0]
    pos = [k for k, v in lvs.items() if v is w.args[0]]
    az = [x for x in walk(named(w, "azimuth", 1), set()) if x.op == "mcall" and x.args[1] == "azimuth"]
    seg = end(az[0].args[0])[0] if len(az) == 1 and end(az[0].args[0]) else None
    for q in qs:
        if q.op == "mcall" and q.args[1] == "distance":
            a, b = q.args[0], named(q, "other", 0)
            if b is lvs.get(pos[0] if pos else None):
                a, b = b, a
            e = end(b) if b is not None else None
            if a is w.args[0] and e is not None and e[0] is seg and e[1] in (1, -1):
                rep.ok("%s: the length left is measured from the position to the end of the segment" % tag, where)
            elif e is not None and e[0] is seg and (e[1] == 0 or end(a) is not None and end(a)[0] is seg):
                rep.bad("spacing", tag, "what is left of the segment is not measured from the position to its end", where)
            else:
                rep.undec("%s: the length left of the segment" % tag)
        elif q.op == "lv":
            k = [x for x, v in lvs.items() if v is q]
            if not k:
                rep.undec("%s: the length left of the segment" % tag)
                continue
            n = Norm()
            for r in laid:
                v = r[0].get(k[0])
                d = named(walks(r)[0], "distance", 0)
                if isinstance(v, T) and n(v).same(n(q) - n(d)):
                    rep.ok("%s: what has been walked is taken off the length left of the segment" % tag, where)
                elif isinstance(v, T) and (v is q or n(v).same(n(q) + n(d)) or not n(v).atoms() or
                                           n(v).same(n(q) - n(steplike(d, lvs)))):
                    rep.bad("spacing", tag, "what has been walked is not taken off the length left of the segment", where)
                else:
                    rep.undec("%s: the length left of the segment" % tag)
        else:
            rep.undec("%s: the length left of the segment" % tag)
    for r in rest:
        for k in pos:
            v = r[0].get(k)
            e = end(v) if isinstance(v, T) else None
            if e is not None and e[0] is seg and e[1] in (1, -1):
                rep.ok("%s: past the end of a segment the walk goes on from its last vertex" % tag, where)
            elif e is not None and e[0] is seg and e[1] == 0:
                rep.bad("spacing", tag, "past the end of a segment the walk goes on from its first vertex", where)
            else:
                rep.undec("%s: the position at the end of a segment" % tag)


def steplike(d, lvs):
    """what a loop variable started from"""
    return d.args[1] if d.op == "lv" else d


def flat(p, rep, tag, where, it, bodies):
    """walks go in the plane: so must the lengths"""
    c = p.modules[MOD].classes.get("Point")
    f = c.methods.get("walk") if c is not None else None
    if f is None:
        return
    me = mk("param", "self")
    i = Interp(p, P31())
    plane = True
    for q in i.run(f, c):
        v = i.reify(q.value, q.state)
        if q.kind == "return":
            inputs = [x for k, x in v.args[1] if k not in ("crs", "properties")] if v.op == "new" else []
            plane = plane and len(inputs) == 1 and inputs[0].op == "tuple" and len(inputs[0].args) == 2
    if not plane:
        return
    bases = set()
    for s, lvs, init, rows, out, breaks, itt in bodies:
        for t in [itt] + list(init.values()):
            for x in walk(t, set()) if isinstance(t, T) else ():
                if x.op == "attr" and x.args[1] == "segments" or x.op == "mcall" and x.args[1] in ("cumulength", "segment_tuples"):
                    bases.add(x.args[0])
    if me in bases:
        rep.bad("plane", tag, "the lengths of lines of rank three are measured in space, while the points are laid out in the plane",
                where)
    elif bases:
        rep.ok("%s: lengths in the plane of the walk" % tag, where)
    else:
        rep.undec("%s: the dimension of the lengths" % tag)


def system(rep, tag, it, paths):
    me = mk("param", "self")
    for q in paths:
        if q.kind != "return" or not isinstance(q.value, T):
            continue
        v = it.reify(q.value, q.state)
        if v.op != "new":
            rep.undec("%s: the geometry returned" % tag)
            continue
        crs = [x for k, x in v.args[1] if k == "crs"]
        if crs and (crs[0] is mk("attr", me, "crs") or crs[0].op == "attr" and crs[0].args[1] == "crs" and contains(crs[0], me)):
            rep.ok("%s: the points are in the line's system" % tag, q.where)
        elif not crs:
            rep.bad("spacing", tag, "the points are not given the line's coordinate system", q.where)
        else:
            rep.undec("%s: the system of the points" % tag)
        verts = [x for k, x in v.args[1] if x.op == "list" and x.args]
        if len(verts) != 1:
            rep.undec("%s: the points returned" % tag)
            continue
        x = verts[0].args[0]
        first = [y for y in walk(x, set()) if y.op == "item" and y.args[1] is const(0) and
                 (y.args[0] is me or y.args[0].op == "new")] if x.op != "each" else []
        if first:
            rep.ok("%s: the first vertex is a point" % tag, q.where)
        elif x.op == "each":
            rep.bad("spacing", tag, "the first vertex is not among the points", q.where)
        else:
            rep.undec("%s: the first point" % tag)
        for y in verts[0].args:
            if y.op == "each":
                if y.args[3].op == "mcall" and y.args[3].args[0].op == "mcall" and y.args[3].args[0].args[1] == "walk":
                    rep.ok("%s: the points walked to are returned" % tag, q.where)
                elif not any(z.op == "mcall" and z.args[1] == "walk" for z in walk(y.args[3], set())):
                    rep.undec("%s: the points returned" % tag)


def check():
    p = Program()
    rep = Report("C31", RULE)
    for name in METHODS:
        done = set()
        for c in p.modules[MOD].classes.values():
            f = c.methods.get(name)
            if f is None or f.qual in done:
                continue
            done.add(f.qual)
            rep.fn(f.qual)
            try:
                analyse(p, rep, c, f)
            except Exception as e:
                rep.undec("%s: %s %s" % (f.qual, type(e).__name__, e))
    return rep
