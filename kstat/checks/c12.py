"""C12: blockwise band reads and writes address exactly the requested cells."""
from ..finite import Eval, Arr, Label, Unknown, Fault, spread
from ..interp import Interp, Policy
from ..iospec import extname
from ..loader import Program
from ..report import Report
from ..terms import T, mk, fmt

TECHNIQUE = "index maps of the value terms, decided at every order type of window, chunk and band boundaries"
RULE = ("The array a band method returns, and the state it leaves behind, are read off the source as value terms and "
        "resolved to index maps: for each cell of the result, the stored cell it copies. The maps are piecewise "
        "affine in the window and chunk boundaries, so they are compared with the specified map (result[r, c] is cell "
        "[yoff+r, xoff+c]; a write replaces those cells and no other) at every order type of the boundaries. Chunked "
        "storage is an induction over histories: the state is any mix of chunks never written and chunks written, "
        "one read or write is one step. Keys of BandIndexer are ints, slices (negative steps and bounds included) and "
        "masks; file bands have their rows counted from the other end.")
MOD = "karta.raster.band"
GD = "karta.raster._gdal"
SELF = mk("param", "self")
INIT = Label(("initial",))


class Pol(Policy):
    max_depth = 5
    max_states = 4000

    def __init__(self, mod, cls):
        self.mod, self.cls = mod, cls

    def inline(self, i, f, recv, d):
        return f.module.name in (MOD, GD) and f.name != "__init__" and (f.cls is None or recv is SELF or f.cls is self.cls)


class Raised(Exception):
    pass


class Model(object):
    """summaries of the methods of one class"""
    def __init__(self, p, cls):
        self.p, self.cls = p, cls
        self.sums = {}

    def summary(self, name):
        if name not in self.sums:
            f = self.cls.lookup(name)
            if f is None:
                raise Unknown("no " + name)
            it = Interp(self.p, Pol(f.module.name, self.cls))
            ps = it.run(f, self.cls)
            if it.breaks:
                raise Unknown("loop with break in " + name)
            self.sums[name] = (f, it, ps)
        return self.sums[name]

    def path(self, name, args, state, hook, views=False):
        """the path taken at one instance, and its evaluator"""
        f, it, ps = self.summary(name)
        env = {mk("attr", SELF, k): v for k, v in state.items()}
        env[SELF] = state
        ps_names = f.pos[1:] if f.pos and f.pos[0] == "self" else f.pos
        vals = list(args)
        for i, n in enumerate(ps_names):
            if i < len(vals):
                env[mk("param", n)] = vals[i]
            else:
                d = f.defaults.get(n) if isinstance(f.defaults, dict) else None
                if d is not None:
                    env[mk("param", n)] = _default(d)
        ev = Eval(env, hook)
        for q in ps:
            if ev.holds(q.conds):
                for e in q.events:
                    if e.kind in ("store", "aug") and e.term.op == "item" and e.term.args[0] is not SELF and \
                            not (views and root(e.term) is not None):
                        raise Unknown("write through a view in " + name)
                return q, ev, it
        raise Unknown("no path of %s" % name)


def root(t):
    while t.op == "item":
        t = t.args[0]
    return t.args[1] if t.op == "attr" and t.args[0] is SELF else None


def through_views(q, ev, state):
    """writes into slices of an array attribute"""
    for e in q.events:
        if e.kind == "store" and e.term.op == "item":
            k = root(e.term)
            for _ in ev.around(e.loops, e.conds[len(q.conds):]):
                a = state.get(k)
                if not isinstance(a, Arr):
                    raise Unknown("write through a view")
                chain, t = [], e.term
                while t.op == "item":
                    chain.append(ev.ev(t.args[1]))
                    t = t.args[0]
                v = Arr(a.shape, list(range(len(a.data))))
                for c in reversed(chain):
                    v = v.get(c)
                if not isinstance(v, Arr):
                    raise Unknown("write through a view")
                shape, pos = v.pick(ev.ev(e.extra[0]))
                new = list(a.data)
                for p, x in zip(pos, spread(ev.ev(e.extra[1]), shape).data):
                    new[v.data[p]] = x
                state[k] = Arr(a.shape, new, a.dtype)
        elif e.kind == "aug" and e.term.op == "item":
            raise Unknown("write through a view")


def _default(d):
    import ast
    try:
        return ast.literal_eval(d)
    except Exception:
        raise Unknown("default value")


class Bytes(object):
    def __init__(self, cells, dtype):
        self.cells, self.dtype = cells, dtype


class Packed(Bytes):
    def __eq__(self, other):
        return self is other

    __hash__ = object.__hash__


# ---------------------------------------------------------------- chunked storage
def own_methods(model):
    """calls of the class's own methods that the summary left open (argument lists of unknown length)"""
    def hook(ev, t):
        if t.op == "mcall" and t.args[0] is SELF and model.cls.lookup(t.args[1]) is not None:
            a, kw = ev.args(t)
            f = model.cls.lookup(t.args[1])
            names = f.pos[1:]
            a = list(a)
            try:
                a = [kw[n] if n in kw else a.pop(0) for n in names]
            except IndexError:
                raise Unknown("arguments of " + t.args[1])
            q, ev2, it = model.path(t.args[1], a, ev.env[SELF], hook)
            if q.kind == "raise" or any(b is SELF for b, k in q.state.attrs):
                raise Unknown("call of " + t.args[1])
            return ev2.ev(it.reify(q.value, q.state))
        return chunk_hook(ev, t)
    return hook


def chunk_hook(ev, t):
    if t.op == "mcall" and t.args[1] in ("tostring", "tobytes"):
        v = ev.ev(t.args[0])
        if isinstance(v, Arr):
            a, kw = ev.args(t)
            if a or kw and kw.get("order") not in (None, "C"):
                raise Unknown("byte order of cells")
            return Bytes(list(v.data), v.dtype)
    n = extname(t)
    if n in ("blosc.compress", "zlib.compress"):
        v = ev.args(t)[0][0]
        if isinstance(v, Bytes):
            return Packed(v.cells, v.dtype)
    if n in ("blosc.decompress", "zlib.decompress"):
        v = ev.args(t)[0][0]
        if isinstance(v, Packed):
            return Bytes(v.cells, v.dtype)
        if v is None:
            raise Fault("decompression of a chunk that was never written")
    if n == "bytearray":
        v = ev.args(t)[0][0]
        if isinstance(v, Bytes):
            return v
    if n in ("blosc.pack_array",):
        v = ev.args(t)[0][0]
        if isinstance(v, Arr):
            return v
    if n == "blosc.unpack_array":
        v = ev.args(t)[0][0]
        if isinstance(v, Arr):
            return v
    if n in ("numpy.frombuffer", "numpy.fromstring"):
        a, kw = ev.args(t)
        v = a[0] if a else None
        dt = kw.get("dtype", a[1] if len(a) > 1 else None)
        if isinstance(v, Bytes):
            if v.dtype != dt:
                raise Fault("cells stored with type %s are read with type %s" % (v.dtype, dt))
            return Arr((len(v.cells),), v.cells, dt)
    if n == "numpy.dtype":
        return ev.args(t)[0][0]
    if t.op == "attr" and t.args[1] == "itemsize":
        return 1
    raise NotImplementedError


class Chunked(object):
    """the chunked band class at one grid and chunk size"""
    def __init__(self, model, size, chunk):
        self.m, self.size, self.chunk = model, size, chunk
        self.hook = own_methods(model)
        q, ev, it = model.path("__init__", [size, "DTYPE", chunk, INIT], {}, chunk_hook)
        if q.kind == "raise":
            raise Fault("construction of a band of size %s raises" % (size,))
        self.fresh = {}
        for e in q.events:
            if e.kind == "setattr" and e.term is SELF:
                for _ in ev.around(e.loops, e.conds[len(q.conds):]):
                    self.fresh[e.extra[0]] = ev.ev(e.extra[1])
        for (b, k), v in q.state.attrs.items():
            if b is SELF:
                self.fresh[k] = ev.ev(it.reify(v, q.state))

    def step(self, name, args, state):
        q, ev, it = self.m.path(name, args, state, self.hook, True)
        if q.kind == "raise":
            raise Fault("%s raises %s" % (name, fmt(q.value)[:60] if q.value is not None else ""))
        new = dict(state)
        for (b, k), v in q.state.attrs.items():
            if b is SELF:
                new[k] = ev.ev(it.reify(v, q.state))
        through_views(q, ev, new)
        val = ev.ev(it.reify(q.value, q.state)) if q.value is not None else None
        return val, new

    def read(self, state, w):
        v, new = self.step("getblock", w, state)
        if any(new[k] is not state[k] and repr(new[k]) != repr(state[k]) for k in state):
            raise Fault("reading a block changes the band")
        if not isinstance(v, Arr):
            raise Unknown("block of unknown shape")
        return v

    def write(self, state, yoff, xoff, arr):
        return self.step("setblock", (yoff, xoff, arr), state)[1]

    def mix(self, a, b, pick):
        """chunks from state a where pick(i), else from b"""
        out = dict(a)
        for k in a:
            x, y = a[k], b[k]
            if isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
                out[k] = [x[i] if pick(i) else y[i] for i in range(len(x))]
            elif isinstance(x, Arr) and isinstance(y, Arr) and x.shape == y.shape and x.ndim == 1:
                out[k] = Arr(x.shape, [x.data[i] if pick(i) else y.data[i] for i in range(len(x.data))], x.dtype)
            elif x is not y and repr(x) != repr(y):
                raise Unknown("state %s is not kept by chunk" % k)
        return out


def windows(n):
    return [(o, k) for o in range(n + 1) for k in range(n - o + 1)]


def chunk_cases(tier):
    top = 6 if tier == "thorough" else 5
    axis = [(n, c, o, k) for n in range(1, top + 1) for c in (1, 2, 3) for o, k in windows(n)]
    rest = [(3, 2, 1, 2), (1, 3, 0, 1)] if tier != "thorough" else [(3, 2, 1, 2), (1, 3, 0, 1), (5, 2, 2, 2), (4, 3, 0, 4), (2, 1, 1, 0)]
    cases = {}
    for a in axis:
        for b in rest:
            for y, x in ((a, b), (b, a)):
                cases.setdefault(((y[0], x[0]), (y[1], x[1])), []).append((y[2], x[2], y[3], x[3]))
    return cases


def compare(rep, lab, where, got, want, rule):
    if got.shape != want.shape:
        rep.bad(rule, lab + " shape", "returns an array of shape %s for %s" % (got.shape, want.shape), where)
        return False
    for i, (a, b) in enumerate(zip(got.data, want.data)):
        if a != b and not isinstance(b, Any):
            r, c = divmod(i, want.shape[1]) if want.shape[1:] and want.shape[1] else (i, 0)
            rep.bad(rule, lab, "the value at (%d, %d) of the result is %r instead of %r" % (r, c, a, b), where)
            return False
    return True


class Any(object):
    pass


def compressed(rep, p):
    cls = p.modules[MOD].classes.get("CompressedBand")
    if cls is None:
        rep.undec("no CompressedBand")
        return
    m = Model(p, cls)
    fs = {n: cls.lookup(n) for n in ("getblock", "setblock", "__init__")}
    if None in fs.values():
        rep.undec("CompressedBand lacks " + ", ".join(k for k, v in fs.items() if v is None))
        return
    for n, f in fs.items():
        rep.fn(f.qual)
    wh = {n: "%s (%s)" % (f.where, f.qual) for n, f in fs.items()}
    done = 0
    for (size, chunk), wins in sorted(chunk_cases(rep.tier).items()):
        inst = "size %s, chunks %s" % (size, chunk)
        stage = "__init__"
        try:
            b = Chunked(m, size, chunk)
            stage = "getblock"
            full = (0, 0) + size
            if not compare(rep, "CompressedBand fresh", wh["getblock"] + " at " + inst,
                           b.read(b.fresh, full), Arr.of(size, lambda *i: INIT), "initial value"):
                return
            stage = "setblock"
            old = Arr.of(size, lambda y, x: Label(("old", y, x)), "DTYPE")
            whole = b.write(b.fresh, 0, 0, old)
            stage = "getblock"
            if not compare(rep, "CompressedBand whole", wh["setblock"] + " at " + inst,
                           b.read(whole, full), old, "write then read"):
                return
            states = [whole] + [b.mix(whole, b.fresh, pick) for pick in
                                (lambda i: i % 2 == 0, lambda i: i % 2 == 1)]
            for state in states:
                stage = "getblock"
                rep0 = b.read(state, full)
                for w in wins:
                    stage = "getblock"
                    at = "%s, window %s" % (inst, w)
                    want = Arr.of(w[2:], lambda r, c: rep0.at(w[0] + r, w[1] + c))
                    if not compare(rep, "CompressedBand.getblock", wh["getblock"] + " at " + at, b.read(state, w), want,
                                   "cells read"):
                        return
                    stage = "setblock"
                    new = Arr.of(w[2:], lambda r, c: Label(("new", r, c)), "GIVEN")
                    after = b.write(state, w[0], w[1], new)
                    stage = "getblock"
                    want = Arr.of(size, lambda y, x: Label(("new", y - w[0], x - w[1]))
                                  if 0 <= y - w[0] < w[2] and 0 <= x - w[1] < w[3] else rep0.at(y, x))
                    if not compare(rep, "CompressedBand.setblock", wh["setblock"] + " at " + at, b.read(after, full), want,
                                   "cells written"):
                        return
                    done += 1
        except Fault as e:
            rep.bad("defined", "CompressedBand." + stage, "cannot be executed at %s: %s" % (inst, e), wh[stage])
            return
        except Unknown as e:
            rep.undec("CompressedBand.%s at %s: %s" % (stage, inst, e))
            return
    for n in ("getblock", "setblock"):
        rep.ok("CompressedBand.%s addresses the window's cells at %d order types of window, chunks and size" % (n, done), wh[n])
    rep.ok("chunks never written hold the initial value; chunk numbers address distinct chunks", wh["__init__"])


# ---------------------------------------------------------------- whole-array bands
def simple(rep, p):
    cls = p.modules[MOD].classes.get("SimpleBand")
    if cls is None:
        rep.undec("no SimpleBand")
        return
    m = Model(p, cls)
    wh = {}
    for n in ("getblock", "setblock"):
        f = cls.lookup(n)
        if f is None:
            rep.undec("no SimpleBand." + n)
            return
        rep.fn(f.qual)
        wh[n] = "%s (%s)" % (f.where, f.qual)
    stage = "getblock"
    try:
        n = 0
        for size in ((3, 4), (1, 2), (2, 1)):
            b = Chunked.__new__(Chunked)
            b.m = m
            b.hook = own_methods(m)
            for init in (INIT, None):
                q, ev, it = m.path("__init__", [size, "DTYPE", init], {}, chunk_hook)
                b.fresh = {k: ev.ev(it.reify(v, q.state)) for (o, k), v in q.state.attrs.items() if o is SELF}
                if init is INIT and not compare(rep, "SimpleBand fresh", wh["getblock"], b.read(b.fresh, (0, 0) + size),
                                                Arr.of(size, lambda *i: INIT), "initial value"):
                    return
            old = Arr.of(size, lambda y, x: Label(("old", y, x)), "DTYPE")
            stage = "setblock"
            whole = b.write(b.fresh, 0, 0, old)
            for yo, ny in windows(size[0]):
                for xo, nx in windows(size[1]):
                    w = (yo, xo, ny, nx)
                    stage = "getblock"
                    if not compare(rep, "SimpleBand.getblock", wh["getblock"] + " at window %s" % (w,), b.read(whole, w),
                                   Arr.of((ny, nx), lambda r, c: old.at(yo + r, xo + c)), "cells read"):
                        return
                    stage = "setblock"
                    new = Arr.of((ny, nx), lambda r, c: Label(("new", r, c)))
                    after = b.write(whole, yo, xo, new)
                    want = Arr.of(size, lambda y, x: Label(("new", y - yo, x - xo))
                                  if 0 <= y - yo < ny and 0 <= x - xo < nx else old.at(y, x))
                    if not compare(rep, "SimpleBand.setblock", wh["setblock"] + " at window %s" % (w,),
                                   b.read(after, (0, 0) + size), want, "cells written"):
                        return
                    n += 1
        for k in wh:
            rep.ok("SimpleBand.%s addresses the window's cells at %d windows" % (k, n), wh[k])
    except Fault as e:
        rep.bad("defined", "SimpleBand." + stage, "cannot be executed: %s" % e, wh[stage])
    except Unknown as e:
        rep.undec("SimpleBand.%s: %s" % (stage, e))


def filebands(rep, p):
    cls = p.modules[GD].classes.get("GdalFileBand") if GD in p.modules else None
    if cls is None:
        rep.undec("no GdalFileBand")
        return
    m = Model(p, cls)
    f = cls.lookup("getblock")
    if f is None:
        rep.undec("no GdalFileBand.getblock")
        return
    rep.fn(f.qual)
    where = "%s (%s)" % (f.where, f.qual)
    ds, bd = object(), object()
    try:
        n = 0
        for S, C in ((4, 3), (1, 2), (3, 1)):
            def hook(ev, t):
                if t.op == "attr":
                    o = ev.ev(t.args[0])
                    if o is ds or o is bd:
                        k = {"RasterYSize": S, "RasterXSize": C, "YSize": S, "XSize": C}.get(t.args[1])
                        if k is None:
                            raise Unknown(fmt(t)[:60])
                        return k
                if t.op == "mcall" and t.args[1] == "ReadAsArray" and ev.ev(t.args[0]) is bd:
                    a, kw = ev.args(t)
                    names = ("xoff", "yoff", "win_xsize", "win_ysize")
                    v = dict(zip(names, a))
                    v.update(kw)
                    if set(v) - set(names):
                        raise Unknown("arguments of ReadAsArray")
                    x, y, nx, ny = v.get("xoff", 0), v.get("yoff", 0), v.get("win_xsize"), v.get("win_ysize")
                    nx, ny = C if nx is None else nx, S if ny is None else ny
                    if x < 0 or y < 0 or x + nx > C or y + ny > S or nx < 1 or ny < 1:
                        raise Fault("window (rows %s+%s, columns %s+%s) is outside of a file of %d x %d" % (y, ny, x, nx, S, C))
                    return Arr.of((ny, nx), lambda r, c: Label(("cell", S - 1 - (y + r), x + c)))
                raise NotImplementedError
            state = {"dataset": ds, "gdalband": bd}
            for yo, ny in windows(S):
                for xo, nx in windows(C):
                    if not (ny and nx):
                        continue
                    q, ev, it = m.path("getblock", (yo, xo, ny, nx), state, hook)
                    if q.kind == "raise":
                        raise Fault("raises")
                    v = ev.ev(it.reify(q.value, q.state))
                    if not isinstance(v, Arr):
                        raise Unknown("block")
                    if not compare(rep, "GdalFileBand.getblock", where + " at window %s of %s" % ((yo, xo, ny, nx), (S, C)), v,
                                   Arr.of((ny, nx), lambda r, c: Label(("cell", yo + r, xo + c))), "cells read"):
                        return
                    n += 1
        rep.ok("GdalFileBand.getblock reads the window's cells, rows counted from the last row of the file, at %d windows" % n, where)
    except Fault as e:
        rep.bad("defined", "GdalFileBand.getblock", "cannot be executed: %s" % e, where)
    except Unknown as e:
        rep.undec("GdalFileBand.getblock: %s" % e)


# ---------------------------------------------------------------- keys
class Band(object):
    def __init__(self, k, size):
        self.k, self.size = k, size

    def block(self, yo, xo, ny, nx):
        for v in (yo, xo, ny, nx):
            if isinstance(v, bool) or not isinstance(v, int):
                raise Fault("block bounds %s" % ((yo, xo, ny, nx),))
        if yo < 0 or xo < 0 or ny < 0 or nx < 0 or yo + ny > self.size[0] or xo + nx > self.size[1]:
            raise Fault("block (rows %d+%d, columns %d+%d) is outside of a band of %s" % (yo, ny, xo, nx, self.size))

    def read(self, yo, xo, ny, nx):
        self.block(yo, xo, ny, nx)
        return Arr.of((ny, nx), lambda r, c: Label((self.k, yo + r, xo + c)))


def named(ev, t, names):
    a, kw = ev.args(t)
    v = dict(zip(names, a))
    v.update(kw)
    if set(v) != set(names):
        raise Unknown("arguments of " + t.args[1])
    return [v[n] for n in names]


class Indexer(object):
    def __init__(self, model, size, nb):
        self.m = model
        self.bands = [Band(k, size) for k in range(nb)]
        self.size = size
        self.state = {"bands": self.bands}

    def hook(self, ev, t):
        if t.op == "attr":
            o = ev.ev(t.args[0])
            if isinstance(o, Band):
                if t.args[1] == "size":
                    return o.size
                if t.args[1] == "dtype":
                    return "DTYPE"
                raise Unknown(fmt(t)[:60])
        if t.op == "mcall":
            if t.args[1] == "getblock":
                o = ev.ev(t.args[0])
                if isinstance(o, Band):
                    return o.read(*named(ev, t, ("yoff", "xoff", "ny", "nx")))
            if t.args[0] is SELF and t.args[1] == "__getitem__":
                return self.get(ev.args(t)[0][0])
        if t.op == "item" and t.args[0] is SELF:
            return self.get(ev.ev(t.args[1]))
        raise NotImplementedError

    def run(self, name, args):
        return self.m.path(name, args, self.state, self.hook)

    def get(self, key):
        q, ev, it = self.run("__getitem__", [key])
        if q.kind == "raise":
            raise Raised(fmt(q.value)[:80])
        return ev.ev(it.reify(q.value, q.state))

    def set(self, key, val):
        q, ev, it = self.run("__setitem__", [key, val])
        if q.kind == "raise":
            raise Raised(fmt(q.value)[:80])
        cells = {}
        for e in q.events:
            if e.kind == "mcall" and e.term.args[1] == "setblock":
                for _ in ev.around(e.loops, e.conds[len(q.conds):]):
                    o = ev.ev(e.term.args[0])
                    if not isinstance(o, Band):
                        raise Unknown("setblock on " + fmt(e.term.args[0])[:50])
                    y, x, a = named(ev, e.term, ("yoff", "xoff", "array"))
                    if not isinstance(a, Arr):
                        raise Unknown("array of setblock")
                    if a.ndim != 2:
                        raise Fault("setblock with an array of shape %s" % (a.shape,))
                    o.block(y, x, *a.shape)
                    for r in range(a.shape[0]):
                        for c in range(a.shape[1]):
                            v = a.at(r, c)
                            if v != Label((o.k, y + r, x + c)):
                                cells[(o.k, y + r, x + c)] = v
                            else:
                                cells.pop((o.k, y + r, x + c), None)
        return cells


def slices(n, steps):
    out = []
    bounds = [None, 0, 1, n - 1, n + 2, -1, -n - 1]
    for st in steps:
        for a in bounds:
            for b in bounds:
                if slice(a, b, st) not in out:
                    out.append(slice(a, b, st))
    return out


def tri(size, nb, key):
    """axis selections of a key: (rows, columns, bands), and the axes kept"""
    if isinstance(key, slice):
        key = (key, slice(None), slice(None))
    if len(key) == 2:
        key = key + (slice(None),)
    sel, kept = [], []
    for n, k, ax in zip(size + (nb,), key, range(3)):
        if isinstance(k, int):
            sel.append([range(n)[k]])
        else:
            sel.append(list(range(n)[k]))
            kept.append(ax)
    return sel, kept


def expected(size, nb, key):
    sel, kept = tri(size, nb, key)
    shape = [len(sel[ax]) for ax in kept]

    def cell(*ix):
        full = [sel[ax][0] if ax not in kept else sel[ax][ix[kept.index(ax)]] for ax in range(3)]
        return Label((full[2], full[0], full[1]))
    if not shape:
        return cell()
    return Arr.of(shape, cell)


def keys(size, nb, steps):
    ny, nx = size
    ks = []
    for s in slices(ny, steps):
        ks += [s, (s, slice(None), slice(None)), (s, 0)]
    for s in slices(nx, steps):
        ks += [(slice(None), s), (ny - 1, s, 0)]
    for s in slices(nb, steps):
        ks += [(slice(None), slice(0, 1), s), (0, 0, s)]
    for i in range(-ny, ny):
        ks += [(i, slice(None)), (i, 0, 0)]
    for j in range(-nx, nx):
        ks += [(slice(None), j, slice(None)), (0, j)]
    for b in range(-nb, nb):
        ks += [(slice(None), slice(None), b), (0, slice(0, 2), b)]
    if len([s for s in steps if s not in (None, 1)]):
        ks += [(slice(None, None, -2), slice(None, 0, -1), slice(None, None, -1)), (slice(1, None, 2), slice(3, 0, -2))]
    return ks


def kname(k):
    def one(x):
        if isinstance(x, slice):
            return ":".join("" if v is None else str(v) for v in ([x.start, x.stop] + ([x.step] if x.step is not None else [])))
        return "mask" if isinstance(x, Arr) else str(x)
    return "[%s]" % ", ".join(one(x) for x in (k if isinstance(k, tuple) else (k,)))


def indexer(rep, p):
    cls = p.modules[MOD].classes.get("BandIndexer")
    if cls is None:
        rep.undec("no BandIndexer")
        return
    m = Model(p, cls)
    wh = {}
    for n in ("__getitem__", "__setitem__", "__iter__"):
        f = cls.lookup(n)
        if f is None:
            rep.undec("no BandIndexer." + n)
            return
        rep.fn(f.qual)
        wh[n] = "%s (%s)" % (f.where, f.qual)
    for stage, fun in (("__getitem__", getting), ("__getitem__ mask", get_masks), ("__setitem__", setting),
                       ("__setitem__ mask", set_masks), ("__iter__", iterating)):
        where = wh[stage.split()[0]]
        try:
            n = fun(rep, m, where)
            if n:
                rep.ok("BandIndexer.%s addresses the key's cells for %d keys" % (stage, n), where)
        except Fault as e:
            rep.bad("defined", "BandIndexer." + stage, "cannot be executed: %s" % e, where)
        except Raised as e:
            rep.bad("defined", "BandIndexer." + stage, "refuses a valid key: %s" % e, where)
        except Unknown as e:
            rep.undec("BandIndexer.%s: %s" % (stage, e))


SIZES = (((3, 4), 2), ((2, 3), 1), ((1, 2), 1), ((2, 1), 3))


def attempt(f, key, *a):
    try:
        return f(key, *a)
    except Fault as e:
        raise Fault("%s with key %s" % (e, kname(key)))
    except Raised as e:
        raise Raised("%s with key %s" % (e, kname(key)))


def getting(rep, m, where):
    n = 0
    for size, nb in SIZES:
        x = Indexer(m, size, nb)
        for key in keys(size, nb, (None, 1, 2, 3, -1, -2)):
            got, want = attempt(x.get, key), expected(size, nb, key)
            if isinstance(want, Arr) and not isinstance(got, Arr) or not isinstance(want, Arr) and isinstance(got, Arr) and got.shape:
                rep.bad("key cells", "BandIndexer.__getitem__ shape", "key %s of a grid of %s x %d bands returns %s" %
                        (kname(key), size, nb, "a value" if isinstance(want, Arr) else "an array"), where)
                return 0
            g, w = (got, want) if isinstance(want, Arr) else (Arr((1, 1), [got]), Arr((1, 1), [want]))
            if g.shape != w.shape or g.data != w.data:
                k = [i for i, (a, b) in enumerate(zip(g.data, w.data)) if a != b]
                rep.bad("key cells", "BandIndexer.__getitem__", "key %s of a grid of %s x %d bands: %s" %
                        (kname(key), size, nb, "shape %s instead of %s" % (g.shape, w.shape) if g.shape != w.shape else
                         "value %d is %r instead of %r" % (k[0], g.data[k[0]], w.data[k[0]])), where)
                return 0
            n += 1
    return n


def masks(size, nb):
    ny, nx = size
    for f in (lambda y, x: (y + x) % 2 == 0, lambda y, x: x == nx - 1, lambda y, x: y == 0, lambda y, x: False):
        yield Arr.of(size, lambda y, x: bool(f(y, x)))
    for f in (lambda y, x, b: (y + x + b) % 2 == 0, lambda y, x, b: b == nb - 1):
        yield Arr.of(size + (nb,), lambda y, x, b: bool(f(y, x, b)))


def get_masks(rep, m, where):
    n = 0
    for size, nb in SIZES:
        x = Indexer(m, size, nb)
        whole = Arr.of(size + (nb,), lambda r, c, b: Label((b, r, c)))
        for mask in masks(size, nb):
            got, want = attempt(x.get, mask), whole.get(mask)
            if not isinstance(got, Arr) or got.shape != want.shape or got.data != want.data:
                rep.bad("key cells", "BandIndexer.__getitem__ mask", "a mask of shape %s on a grid of %s x %d bands selects other "
                        "cells than those where it is true" % (mask.shape, size, nb), where)
                return 0
            n += 1
    return n


def differ(rep, where, what, got, want, key, size, nb):
    if got == want:
        return False
    d = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))[0]
    rep.bad("key cells", what, "key %s of a grid of %s x %d bands: cell (band %d, row %d, column %d) becomes %r instead of %r" %
            (kname(key), size, nb, d[0], d[1], d[2], got.get(d, "unchanged"), want.get(d, "unchanged")), where)
    return True


def setting(rep, m, where):
    n = 0
    for size, nb in SIZES:
        x = Indexer(m, size, nb)
        for key in keys(size, nb, (None, 1)):
            sel, kept = tri(size, nb, key)
            shape = tuple(len(s) for s in sel)
            if tuple(kept) == (2,) and shape[2] == 1 and nb > 1:
                pass
            one = Label(("one",))
            vals = [(one, lambda r, c, b: one)]
            a2 = Arr.of(shape[:2], lambda r, c: Label(("v", r, c)))
            vals.append((a2, lambda r, c, b: Label(("v", r, c))))
            a3 = Arr.of(shape, lambda r, c, b: Label(("w", r, c, b)))
            vals.append((a3, lambda r, c, b: Label(("w", r, c, b))))
            if shape[:2] == (1, 1):
                a1 = Arr.of((shape[2],), lambda b: Label(("u", b)))
                vals.append((a1, lambda r, c, b: Label(("u", b))))
            for val, f in vals:
                want = {(bb, rr, cc): f(i, j, k) for i, rr in enumerate(sel[0]) for j, cc in enumerate(sel[1])
                        for k, bb in enumerate(sel[2])}
                if not want and isinstance(val, Arr):
                    continue
                got = attempt(x.set, key, val)
                if differ(rep, where, "BandIndexer.__setitem__", got, want, key, size, nb):
                    return 0
                n += 1
        for key in ((slice(None, None, 2), slice(None)), (slice(None), slice(None, None, -1)),
                    (slice(None), slice(None), slice(None, None, -1))):
            sel, kept = tri(size, nb, key)
            one = Label(("one",))
            try:
                got = x.set(key, one)
            except Raised:
                n += 1
                continue
            except Fault:
                continue
            want = {(bb, rr, cc): one for rr in sel[0] for cc in sel[1] for bb in sel[2]}
            if differ(rep, where, "BandIndexer.__setitem__ steps", got, want, key, size, nb):
                return 0
            n += 1
    return n


def set_masks(rep, m, where):
    n = 0
    for size, nb in SIZES:
        x = Indexer(m, size, nb)
        whole = Arr.of(size + (nb,), lambda r, c, b: Label((b, r, c)))
        for mask in masks(size, nb):
            _, pos = whole.pick(mask)
            one = Label(("one",))
            cells = [tuple(whole.data[q]) for q in pos]
            vals = [(one, {c: one for c in cells})]
            k = sum(mask.data)
            if mask.ndim == 3:
                vals.append((Arr((k,), [Label(("v", i)) for i in range(k)]), {c: Label(("v", i)) for i, c in enumerate(cells)}))
            else:
                vals.append((Arr((k,), [Label(("v", i)) for i in range(k)]), {c: Label(("v", i // nb)) for i, c in enumerate(cells)}))
                vals.append((Arr.of((k, nb), lambda i, b: Label(("w", i, b))),
                             {c: Label(("w", i // nb, i % nb)) for i, c in enumerate(cells)}))
            for val, want in vals:
                got = attempt(x.set, mask, val)
                if differ(rep, where, "BandIndexer.__setitem__ mask", got, want, mask, size, nb):
                    return 0
                n += 1
    return n


def iterating(rep, m, where):
    n = 0
    for size, nb in SIZES:
        x = Indexer(m, size, nb)
        q, ev, it = x.run("__iter__", [])
        rows = []
        for e in q.events:
            if e.kind == "yield":
                pass
        v = it.reify(q.value, q.state)
        if not (isinstance(v, T) and v.op == "list"):
            raise Unknown("rows of __iter__")
        rows = [e[1] for e in ev.pure(v.args)]
        if len(rows) != size[0]:
            rep.bad("key cells", "BandIndexer.__iter__", "yields %d rows of a grid of %s" % (len(rows), size), where)
            return 0
        for i, r in enumerate(rows):
            want = Arr.of((nb, size[1]), lambda b, c: Label((b, i, c)))
            if not isinstance(r, Arr):
                raise Unknown("row of __iter__")
            if r.shape not in (want.shape, (size[1],)) or r.data != want.data:
                rep.bad("key cells", "BandIndexer.__iter__", "row %d of a grid of %s x %d bands is %r" % (i, size, nb, r.data[:3]), where)
                return 0
            n += 1
    return n


def check():
    rep = Report("C12", RULE)
    rep.minimum = 4
    rep.assumptions = ["windows given to getblock and setblock lie within the band (0 <= yoff, yoff + ny <= rows)",
                       "blosc returns the bytes it was given; numpy arrays and slices behave as documented",
                       "index maps are piecewise affine in the boundaries, with pieces ordered by the boundaries and by "
                       "multiples of the chunk size: instances up to size 5 with chunks of 1 to 3 cells contain every order type"]
    p = Program(pyx=False)
    for part in (compressed, simple, filebands, indexer):
        try:
            part(rep, p)
        except (Unknown, Fault, Raised) as e:
            rep.undec("%s: %s" % (part.__name__, e))
        except Exception as e:
            rep.undec("%s: %s: %s" % (part.__name__, type(e).__name__, e))
    return rep
