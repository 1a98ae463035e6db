"""The windows that a generator of subgrids yields, by resolving its loop at finite sizes."""
from .finite import Eval, Unknown, Fault
from .interp import Interp
from .results import ResultPolicy
from .terms import T, mk, walk


class Loop(Interp):
    def __init__(self, *a, **k):
        Interp.__init__(self, *a, **k)
        self.whiles = []

    def summarise(self, s, pre, itt, depth, lvs, alv, ends, breaks, names, tnames, mapping):
        if type(s).__name__ == "While":
            self.whiles.append((dict(lvs), [(tuple(e.conds), dict((n, self.reify(e.env[n], e)) for n in lvs if isinstance(e.env.get(n), T)))
                                            for e in ends], [tuple(b.conds) for b in breaks]))
        return Interp.summarise(self, s, pre, itt, depth, lvs, alv, ends, breaks, names, tnames, mapping)


class Endless(Exception):
    pass


SELF = mk("param", "self")


def windows(p, f, c, ny, nx, params, run=None):
    """[(rows, columns)] that the generator yields for a grid of ny by nx cells"""
    it, paths = run or trace(p, f, c)
    env = dict((mk("param", k), v) for k, v in params.items())

    def call(ev, t):
        if t.op == "attr" and t.args[1] == "size":
            return (ny, nx)
        raise NotImplementedError

    def evaluator(state):
        e = dict(env)
        e.update(state)
        return Eval(e, call)

    def yields(q, state, out):
        for e in q.events:
            if e.kind != "yield" or not isinstance(e.term, T):
                continue
            ev = evaluator(state)
            loops = list(e.loops) if e.loops and not state else []
            for _ in ev.around([getattr(x, "iterable", x) for x in loops], tuple(e.conds)):
                w = window(ev, e.term, ny, nx)
                out.append(w)

    def window(ev, t, ny, nx):
        found = set()
        for x in walk(t, set()):
            if x.op == "item" and x.args[0] is SELF and x.args[1].op == "tuple":
                k = ev.ev(x.args[1])
                if isinstance(k, tuple) and len(k) >= 2 and all(isinstance(s, slice) for s in k[:2]):
                    found.add((tuple(range(*k[0].indices(ny))), tuple(range(*k[1].indices(nx)))))
        if len(found) != 1:
            raise Unknown("window")
        return found.pop()
    out = []
    live = []
    for q in paths:
        ev = evaluator({})
        if ev.holds(tuple(x for x in q.conds)):
            live.append(q)
    if len(live) != 1:
        raise Unknown("paths of the generator")
    q = live[0]
    if it.whiles:
        # the loop is seen once per branch before it; its variables tell the branches apart only by their conditions
        good = []
        for lvs, ends, breaks in it.whiles:
            outer = [(c, b) for c, b in ends[0][0] if not any(x in lvs.values() for x in walk(c, set()))
                     and all((c, b) in [(y, z) for y, z in e[0]] for e in ends)] if ends else []
            if evaluator({}).holds(tuple(outer)):
                good.append((lvs, ends, breaks))
        if len(good) != 1:
            raise Unknown("loops of the generator")
        lvs, ends, breaks = good[0]
        state = dict((lv, evaluator({}).ev(lv.args[1])) for lv in lvs.values())
        for step in range(400):
            yields(q, state, out)
            ev = evaluator(state)
            nxt = [e for cs, e in ends if ev.holds(cs)]
            stop = [cs for cs in breaks if ev.holds(cs)]
            if stop and not nxt:
                return out
            if not nxt or any(e != nxt[0] for e in nxt[1:]) or stop:
                raise Unknown("step of the loop")
            state = dict((lv, ev.ev(nxt[0][n])) for n, lv in lvs.items())
        raise Endless()
    yields(q, {}, out)
    return out


def trace(p, f, c):
    it = Loop(p, ResultPolicy())
    return it, [q for q in it.run(f, c) if q.kind == "return"]


SIZES = ((5, 7), (4, 4), (1, 3), (6, 1))
CHUNKS = (((2, 3), (0, 0)), ((3, 2), (1, 0)), ((4, 4), (0, 2)), ((7, 5), (0, 0)), ((2, 2), (1, 1)), ((10, 10), (0, 0)), ((-1, -1), (0, 0)))


def check(p, rep, f, c):
    """the windows are those of the requested size, a step of size less overlap apart, and cover the grid"""
    try:
        run = trace(p, f, c)
    except Exception as e:
        rep.undec("%s: windows (%s)" % (f.name, type(e).__name__))
        return
    n = 0
    why = None
    for ny, nx in SIZES:
        for size, over in CHUNKS:
            text = "a grid of %d by %d cells, size %s and overlap %s" % (ny, nx, size, over)
            try:
                got = windows(p, f, c, ny, nx, {"size": size, "overlap": over, "copy": True}, run)
            except Endless:
                rep.bad("chunks", f.qual, "for %s the subgrids do not come to an end" % text, f.where)
                return
            except Exception as e:
                why = e
                continue
            n += 1
            seen = [(i, j) for r, k in got for i in r for j in k]
            if set(seen) != {(i, j) for i in range(ny) for j in range(nx)}:
                rep.bad("chunks", f.qual, "for %s the subgrids do not cover the grid" % text, f.where)
                return
            if over == (0, 0) and len(seen) != len(set(seen)):
                rep.bad("chunks", f.qual, "for %s cells are in several subgrids" % text, f.where)
                return
            if size != (-1, -1):
                want = {(tuple(range(i, min(i + size[1], ny))), tuple(range(j, min(j + size[0], nx))))
                        for i in range(0, ny, size[1] - over[1]) for j in range(0, nx, size[0] - over[0])}
                if set(got) != want or len(got) != len(want):
                    rep.bad("chunks", f.qual, "for %s the subgrids are not of the size and overlap asked for" % text, f.where)
                    return
    if n and why is None:
        rep.ok("%s: windows of subgrids (%d instances)" % (f.name, n), f.where)
    else:
        rep.undec("%s: windows (%s)" % (f.name, str(why)[:100]))
