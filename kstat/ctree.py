"""Scenarios over the C spatial indexes: abstract start states, one operation, invariants of the state it leaves.

Every scenario is a function of a Machine that builds a start state, runs one operation of the header's public interface
and returns a list of (kind, text) errors; kinds are "result" (items lost, repeated, misplaced, or not covered by the boxes
that searches prune with) and "memory" (capacity, ownership)."""
import os
import time

from . import cfront
from .cabs import Ext, Fault, Machine, Ptr, Sym, TOP, UNINIT, Unknown, Infeasible, explore, extreme, sym

SIDES = (("xmin", "min"), ("ymin", "min"), ("xmax", "max"), ("ymax", "max"))


class Layout(object):
    """typed access to the fields of the header's records"""
    def __init__(self, h, m):
        self.h, self.m = h, m

    def at(self, p, rec, name):
        r = self.h.record(rec)
        if r is None or name not in r["fields"]:
            raise Unknown("no field %s in %s" % (name, rec))
        off, t = r["fields"][name][:2]
        return Ptr(p.b, p.off + off), t

    def get(self, p, rec, name):
        self.m.chk(p, 0, "access")
        q, t = self.at(p, rec, name)
        return self.m.load(q, t)

    def put(self, p, rec, name, v):
        q, t = self.at(p, rec, name)
        self.m.store(q, t, v)

    def elem(self, p, t, i):
        return self.m.load(Ptr(p.b, p.off + i * self.h.size(t)), t)


def leaks(m, owned):
    out = []
    for b in m.heap:
        if b.kind == "heap" and b.freed is None and b not in owned:
            out.append(("memory", "memory allocated at line %s is neither released nor owned by the index" % b.line))
    return out[:1]


# ------------------------------------------------------------------------------------------------ R-tree
class RTree(Layout):
    N, B = "RTreeNode", "BoundingBox"

    def __init__(self, h, m, maxc=4):
        Layout.__init__(self, h, m)
        self.maxc = maxc
        self.items = {}            # block -> index
        self.nodes = 0
        self.leaf, self.nonleaf = h.enums["LEAF"], h.enums["NONLEAF"]

    def box(self, p, name):
        for s, k in SIDES:
            self.put(p, self.B, s, sym("%s.%s" % (name, s)))
        self.m.fact(sym(name + ".xmin"), sym(name + ".xmax"), False)
        self.m.fact(sym(name + ".ymin"), sym(name + ".ymax"), False)
        return p

    def item(self):
        k = len(self.items)
        p = self.box(self.m.call("rt_new_bbox", []), "item%d" % k)
        p.b.label = "item %d" % k
        self.items[p.b] = 1000 + k
        return p, 1000 + k

    def node(self, kind, parent):
        return self.m.call("rt_new_node", [kind, self.h.enums["LINEAR"], self.maxc, parent])

    def build(self, shape, parent=0):
        m = self.m
        kind = self.leaf if isinstance(shape, int) else self.nonleaf
        p = self.node(kind, parent)
        n = shape if isinstance(shape, int) else len(shape)
        kids = self.get(p, self.N, "children")
        idx = self.get(p, self.N, "indices")
        boxes = []
        for i in range(n):
            if kind == self.leaf:
                c, k = self.item()
                m.store(Ptr(idx.b, idx.off + 4 * i), "int", k)
                boxes.append(c)
            else:
                c = self.build(shape[i], p)
                boxes.append(self.get(c, self.N, "bbox"))
            m.store(Ptr(kids.b, kids.off + 8 * i), "char *", c)
        self.put(p, self.N, "count", n)
        if n:
            bb = self.get(p, self.N, "bbox")
            name = "node%d" % self.nodes
            self.nodes += 1
            self.box(bb, name)
            for c in boxes:
                for s, k in SIDES:
                    v = self.get(c, self.B, s)
                    a, b = (sym(name + "." + s), v) if k == "min" else (v, sym(name + "." + s))
                    m.fact(a, b, False)
        return p

    def check(self, root):
        """errors of the tree below root, and the blocks it owns"""
        m, errs, owned, found = self.m, [], set(), []

        def visit(p, parent, depth):
            if depth > 12:
                errs.append(("result", "the tree has a cycle"))
                return
            if not isinstance(p, Ptr):
                errs.append(("memory", "a node is %r" % (p,)))
                return
            if p.b in owned:
                errs.append(("memory", "a node is reached twice"))
                return
            owned.add(p.b)
            kind, n, mx = (self.get(p, self.N, f) for f in ("type", "count", "maxchildren"))
            bb, kids, idx = (self.get(p, self.N, f) for f in ("bbox", "children", "indices"))
            par = self.get(p, self.N, "parent")
            if par != parent:
                errs.append(("memory" if isinstance(par, Ptr) and par.b.freed else "result",
                             "the parent of a node is not the node that holds it"))
            if mx != self.maxc:
                errs.append(("memory", "a node has %r instead of %r children at most" % (mx, self.maxc)))
            if kind not in (self.leaf, self.nonleaf) or not isinstance(n, int):
                errs.append(("result", "a node has no type or count"))
                return
            if n > self.maxc:
                errs.append(("memory", "a node has %d of at most %d children: the next insertion overruns its arrays" % (n, self.maxc)))
            if n == 0 and not (kind == self.leaf and parent == 0):
                errs.append(("result", "a node below the root has no children"))
            for q in (bb, kids, idx):
                m.chk(q, 0, "access")
                if q.b in owned:
                    errs.append(("memory", "two nodes share one array"))
                owned.add(q.b)
            if kids.b.size < 8 * (self.maxc + 1) or (kind == self.leaf and idx.b.size < 4 * (self.maxc + 1)):
                errs.append(("memory", "the arrays of a node hold less than maxchildren+1 entries"))
            for i in range(n):
                c = self.elem(kids, "char *", i)
                if not isinstance(c, Ptr):
                    errs.append(("memory", "a child of a node was never set"))
                    return
                if kind == self.leaf:
                    k = self.elem(idx, "int", i)
                    if c.b not in self.items or c.off:
                        errs.append(("result", "a leaf holds an entry that is not the bounding box of an item"))
                        return
                    found.append(c.b)
                    if c.b.freed is not None:
                        errs.append(("memory", "the bounding box of a stored item was released"))
                        return
                    owned.add(c.b)
                    if k != self.items[c.b]:
                        errs.append(("result", "an item is stored under the index of another item"))
                    cb = c
                else:
                    visit(c, p, depth + 1)
                    cb = self.get(c, self.N, "bbox")
                for s, kd in SIDES:
                    have, need = self.get(bb, self.B, s), self.get(cb, self.B, s)
                    parts = need.of if isinstance(need, Ext) and need.kind == kd else [need]
                    for x in parts:
                        if isinstance(x, Sym) and m.covers(have, x, kd) is False:
                            errs.append(("result", "the box of a node does not contain the box of its child (%s)" % s))
                            return
        visit(root, 0, 0)
        if not errs:
            for b in self.items:
                c = found.count(b)
                if c != 1:
                    errs.append(("result", "an item is %s in the tree" % ("not" if c == 0 else "%d times" % c)))
                    break
        if not errs:
            errs += leaks(m, owned)
        return errs, owned


def as_box(t, m, p):
    for s, k in SIDES:
        if t.get(p, RTree.B, s) is UNINIT:
            raise Fault("use of a bounding box that was never set", m.where())


def loose(h, seeds=None, nexts=None):
    """contracts that leave every choice of the splitting heuristics open"""
    cons = {}
    if "minf" in h.funcs and "maxf" in h.funcs:
        cons["minf"] = lambda m, a: extreme("min", a[0], a[1])
        cons["maxf"] = lambda m, a: extreme("max", a[0], a[1])

    def volume(m, a):
        t = Layout(h, m)
        for p in a:
            as_box(t, m, p)
        return TOP
    if "volume_expanded" in h.funcs:
        cons["volume_expanded"] = volume

    def pick_seeds(m, a):
        n, arr, s0, s1 = a
        t = Layout(h, m)
        for i in range(n):
            as_box(t, m, t.elem(arr, "char *", i))
        # first the degenerate outcome, then pairs
        m.nsplits = getattr(m, "nsplits", 0) + 1
        opts = (seeds(m) if seeds else None) or [None] + [(i, j) for i in range(n) for j in range(n) if i != j]
        o = opts[m.choose(len(opts))] if len(opts) > 1 else opts[0]
        if o is None:
            return 1
        if n < 2:
            raise Unknown("seeds of less than two boxes")
        m.store(s0, "int", o[0])
        m.store(s1, "int", o[1])
        return 0
    if "linear_pick_seeds" in h.funcs and len(h.funcs["linear_pick_seeds"].params) == 4:
        cons["linear_pick_seeds"] = pick_seeds

    def pick_next(m, a):
        n, arr, n0, n1, inext, ibest = a
        t = Layout(h, m)
        if not isinstance(n, int) or n < 1:
            raise Fault("choice from an empty pool", m.where())
        for i in range(n):
            as_box(t, m, t.elem(arr, "char *", i))
        full = nexts(m) if nexts else True
        i = m.choose(n) if full else n - 1
        m.store(inext, "int", i)
        m.store(ibest, "int", m.choose(2))
        return 0
    if "linear_pick_next" in h.funcs and len(h.funcs["linear_pick_next"].params) == 6:
        cons["linear_pick_next"] = pick_next
    return cons


def rt_insert_run(h, shape, maxc=4):
    def run(m):
        t = RTree(h, m, maxc)
        root = t.build(shape)
        p, k = t.item()
        out = m.call("rt_insert", [root, p, k])
        return t.check(out)[0]
    return run


def rt_free_run(h, shape):
    def run(m):
        t = RTree(h, m)
        root = t.build(shape)
        m.call("rt_free", [root])
        return leaks(m, set())
    return run


def drain(t, m, pool):
    """what the wrapper does with a result pool"""
    out = []
    while True:
        n = t.get(pool, "PointerPool", "count")
        if n == 0:
            break
        if not isinstance(n, int) or n < 0 or n > 200:
            raise Fault("the count of the result pool is %r" % (n,), m.where())
        p = m.call("pool_pop", [pool, n - 1])
        v = m.load(p, "int")
        if v is UNINIT:
            raise Fault("a result that was never set", m.where())
        out.append(v)
    m.call("pool_destroy", [pool])
    return out


def query(t, m):
    p = m.call("rt_new_bbox", [])
    return t.box(p, "query")


def rt_search_real(h, fname, shape, closed):
    """search with the header's own predicates on symbolic coordinates"""
    def run(m):
        t = RTree(h, m)
        root = t.build(shape)
        q = query(t, m)
        pool = m.call(fname, [root, q, -1])
        got = drain(t, m, pool)
        errs = []
        for b, k in t.items.items():
            v = {s: t.get(Ptr(b), RTree.B, s) for s, _ in SIDES}
            w = {s: t.get(q, RTree.B, s) for s, _ in SIDES}
            if closed == "within":
                spec = [(w["xmin"], v["xmin"], False), (v["xmax"], w["xmax"], False),
                        (w["ymin"], v["ymin"], False), (v["ymax"], w["ymax"], False)]
                what = "lies within the search box"
            else:
                spec = [(w["xmin"], v["xmax"], False), (v["xmin"], w["xmax"], False),
                        (w["ymin"], v["ymax"], False), (v["ymin"], w["ymax"], False)]
                what = "meets the search box"
            if got.count(k) > 1:
                errs.append(("result", "%s reports an item twice" % fname))
            elif k in got:
                for a, b2, s in spec:
                    if m.possible([(b2, a, True)]):
                        errs.append(("result", "%s reports an item although it is not known that it %s" % (fname, what)))
                        break
            elif m.possible(spec):
                errs.append(("result", "%s misses an item that %s" % (fname, what)))
        for k in got:
            if k not in t.items.values():
                errs.append(("result", "%s reports an index that is not stored" % fname))
        m.call("free", [q])
        if not errs:
            errs = t.check(root)[0]
        return errs
    return run


def rt_search_oracle(h, fname, shape, maxres, everything=False, maxc=4):
    """search with arbitrary outcomes of the predicates that are consistent with boxes containing their children"""
    def run(m):
        t = RTree(h, m, maxc)
        root = t.build(shape)
        q = query(t, m)
        hit = {}

        def decide(p):
            kids = t.get(p, t.N, "children")
            any_ = False
            for i in range(t.get(p, t.N, "count")):
                c = t.elem(kids, "char *", i)
                if t.get(p, t.N, "type") == t.leaf:
                    hit[c.b] = True if everything else m.choose(2) == 1
                    any_ |= hit[c.b]
                else:
                    any_ |= decide(c)
            bb = t.get(p, t.N, "bbox")
            hit[bb.b] = True if any_ or everything else m.choose(2) == 1
            return any_
        decide(root)
        m.hit, m.q, m.tree = hit, q, t
        before = snapshot(m, t, root)
        pool = m.call(fname, [root, q, maxres])
        got = drain(t, m, pool)
        want = sorted(k for b, k in t.items.items() if hit[b])
        errs = []
        if maxres < 0 and sorted(got) != want:
            lost, extra = [k for k in want if k not in got], [k for k in got if k not in want]
            errs.append(("result", "%s %s" % (fname, "loses an item of the tree" if lost else
                                              "reports an item that is not in the box" if extra else "reports an item twice")))
        elif maxres >= 0:
            if len(got) != min(maxres, len(want)):
                errs.append(("result", "%s returns %d of %d items with a limit of %d" % (fname, len(got), len(want), maxres)))
            elif len(set(got)) != len(got) or not set(got) <= set(want):
                errs.append(("result", "%s returns wrong items under a limit" % fname))
        if snapshot(m, t, root) != before:
            errs.append(("result", "%s changes the tree" % fname))
        m.call("free", [q])
        if not errs:
            errs = t.check(root)[0]
        return errs

    def pred(name):
        def con(m, a):
            x, y = a
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x == m.q and y.b in m.hit and not y.off:
                    inside = y.b in m.tree.items
                    if name == "is_within" and not inside:
                        # a node within the box implies nothing about nodes that only meet it
                        return int(m.hit[y.b] and m.choose(2) == 1)
                    return int(m.hit[y.b])
                if name == "is_overlapping" and y == m.q and x.b in m.hit and not x.off:
                    return int(m.hit[x.b])
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                m.chk(x, 0, "access")
                m.chk(y, 0, "access")
            return m.choose(2)
        return con
    return run, {"is_within": pred("is_within"), "is_overlapping": pred("is_overlapping")}


def snapshot(m, t, root):
    out = []

    def visit(p, d):
        if d > 12:
            return
        kind, n = t.get(p, t.N, "type"), t.get(p, t.N, "count")
        kids = t.get(p, t.N, "children")
        out.append((p.b.n, kind, n) + tuple(t.get(t.get(p, t.N, "bbox"), t.B, s) for s, _ in SIDES))
        for i in range(n):
            c = t.elem(kids, "char *", i)
            if kind == t.leaf:
                out.append((c.b.n,) + tuple(t.get(c, t.B, s) for s, _ in SIDES))
            else:
                visit(c, d + 1)
    visit(root, 0)
    return out


def table_minmax(h, name, kind):
    def run(m):
        a, b = sym("a"), sym("b")
        r = m.call(name, [a, b])
        if isinstance(r, (int, float)) or r not in (a, b):
            return [("result", "%s returns neither of its arguments" % name)]
        for x in (a, b):
            bad = (x, r, True) if kind == "min" else (r, x, True)
            if m.possible([bad]):
                return [("result", "%s does not return the %s of its arguments" % (name, kind))]
        return []
    return run


def rect(t, m, rec, name, make=None):
    p = m.new(t.h.size(rec), label=name)
    for s, k in SIDES:
        t.put(p, rec, s, sym("%s.%s" % (name, s)))
    m.fact(sym(name + ".xmin"), sym(name + ".xmax"), False)
    m.fact(sym(name + ".ymin"), sym(name + ".ymax"), False)
    return p


def table_boxes(h, name, kind, strict=False):
    """a predicate of two boxes agrees with closed containment or intersection for every order of the coordinates"""
    def run(m):
        t = Layout(h, m)
        q, i = rect(t, m, "BoundingBox", "q"), rect(t, m, "BoundingBox", "i")
        r = m.call(name, [q, i])
        if r is TOP or not isinstance(r, int):
            raise Unknown("result of " + name)
        g = lambda b, s: sym("%s.%s" % (b, s))
        if kind == "within":
            spec = [(g("q", "xmin"), g("i", "xmin"), False), (g("i", "xmax"), g("q", "xmax"), False),
                    (g("q", "ymin"), g("i", "ymin"), False), (g("i", "ymax"), g("q", "ymax"), False)]
        else:
            spec = [(g("q", "xmin"), g("i", "xmax"), False), (g("i", "xmin"), g("q", "xmax"), False),
                    (g("q", "ymin"), g("i", "ymax"), False), (g("i", "ymin"), g("q", "ymax"), False)]
        if r == 1:
            for a, b, s in spec:
                if m.possible([(b, a, True)]):
                    return [("result", "%s accepts boxes that do not fulfil %s <= %s" % (name, a, b))]
        elif m.possible(spec):
            return [("result", "%s refuses a box that %s" % (name, "lies within the other" if kind == "within" else "meets the other"))]
        return []
    return run


def seeds_run(h, n):
    def run(m):
        t = Layout(h, m)
        arr = m.new(8 * n, label="boxes")
        for i in range(n):
            m.store(Ptr(arr.b, 8 * i), "char *", rect(t, m, "BoundingBox", "b%d" % i))
        s0, s1 = m.new(4, label="seed0"), m.new(4, label="seed1")
        m.store(s0, "int", -1)
        m.store(s1, "int", -1)
        r = m.call("linear_pick_seeds", [n, arr, s0, s1])
        if r is TOP or not isinstance(r, int):
            raise Unknown("result of linear_pick_seeds")
        if r != 0:
            return []
        a, b = m.load(s0, "int"), m.load(s1, "int")
        if not all(isinstance(x, int) for x in (a, b)):
            raise Unknown("seeds")
        if a == b:
            return [("result", "linear_pick_seeds selects one entry as both seeds")]
        if not (0 <= a < n and 0 <= b < n):
            return [("memory", "linear_pick_seeds selects an entry that does not exist")]
        return []
    return run


def next_run(h, n):
    def run(m):
        t = RTree(h, m)
        arr = m.new(8 * n, label="boxes")
        for i in range(n):
            m.store(Ptr(arr.b, 8 * i), "char *", rect(t, m, "BoundingBox", "b%d" % i))
        nodes = [t.build(1), t.build(1)]
        s0, s1 = m.new(4, label="next"), m.new(4, label="best")
        m.store(s0, "int", -1)
        m.store(s1, "int", -1)
        r = m.call("linear_pick_next", [n, arr] + nodes + [s0, s1])
        if r is TOP or not isinstance(r, int):
            raise Unknown("result of linear_pick_next")
        if r != 0:
            return [("memory", "linear_pick_next reports an error, which ends the process")]
        a, b = m.load(s0, "int"), m.load(s1, "int")
        if not all(isinstance(x, int) for x in (a, b)):
            raise Unknown("choice")
        if not (0 <= a < n):
            return [("memory", "linear_pick_next selects an entry that does not exist")]
        if b not in (0, 1):
            return [("memory", "linear_pick_next selects a node that does not exist")]
        return []
    return run


# ------------------------------------------------------------------------------------------------ pools and lists
def pool_run(h, size, count, op):
    """one operation on a pool of the given size holding count members"""
    def run(m):
        t = Layout(h, m)
        p = m.call("pool_new", [8, size])
        toks = [m.new(1, "static", label="member%d" % i) for i in range(count + 1)]
        ref = []
        for i in range(count):
            if m.call("pool_add", [p, toks[i]]) != 0:
                return [("result", "pool_add fails")]
            ref.append(toks[i])
        errs = []
        if op == "add":
            if m.call("pool_add", [p, toks[count]]) != 0:
                return [("result", "pool_add fails")]
            ref.append(toks[count])
        elif isinstance(op, tuple):
            got = m.call("pool_pop", [p, op[1]])
            if got != ref[op[1]]:
                errs.append(("result", "pool_pop returns another member than the one asked for"))
            ref.remove(ref[op[1]])
        n = t.get(p, "PointerPool", "count")
        if n != len(ref):
            return errs + [("result", "a pool of %d members counts %r" % (len(ref), n))]
        have = [t.elem(t.get(p, "PointerPool", "members"), "char *", i) for i in range(n)]
        if sorted(map(repr, have)) != sorted(map(repr, ref)):
            errs.append(("result", "a pool loses or repeats a member"))
        if op == "add" and have[-1:] != ref[-1:]:
            errs.append(("result", "pool_add does not append"))
        m.call("pool_destroy", [p])
        return errs or leaks(m, set())
    return run


def list_run(h, n, op):
    def run(m):
        t = Layout(h, m)
        toks = [m.new(1, "static", label="value%d" % i) for i in range(n)]
        head = m.call("ll_new", [toks[0]])
        for v in toks[1:]:
            m.call("ll_append", [head, v])
        seen, p, errs = [], head, []
        while isinstance(p, Ptr) and len(seen) < 10:
            seen.append(t.get(p, "LinkedListNode", "value"))
            p = t.get(p, "LinkedListNode", "next")
        if p is UNINIT:
            raise Fault("the end of a list was never set", m.where())
        if seen != toks:
            errs.append(("result", "a list loses or reorders its values"))
        if op == "head":
            rest = m.call("ll_destroy_head", [head])
            if n == 1:
                if rest != 0:
                    errs.append(("memory", "the rest of a list of one value is not NULL"))
            else:
                if not isinstance(rest, Ptr) or t.get(rest, "LinkedListNode", "value") != toks[1]:
                    errs.append(("result", "removing the head of a list does not leave its second value"))
                else:
                    m.call("ll_destroy", [rest])
        elif op == "last":
            last = m.call("ll_last", [head])
            if not isinstance(last, Ptr) or t.get(last, "LinkedListNode", "value") != toks[-1]:
                errs.append(("result", "the last node of a list is not found"))
            m.call("ll_destroy", [head])
        else:
            m.call("ll_destroy", [head])
        return errs or leaks(m, set())
    return run


# ------------------------------------------------------------------------------------------------ quadtree
class Prune(Infeasible):
    pass


class QTree(Layout):
    L, NL, B, P = "QuadTreeLeafNode", "QuadTreeNonleafNode", "BoundingBox", "PositionStruct"
    SLOTS = ("ulnode", "urnode", "llnode", "lrnode")

    def __init__(self, h, m, cap):
        Layout.__init__(self, h, m)
        self.cap = cap
        self.leaf, self.nonleaf = h.enums["LEAF"], h.enums["NONLEAF"]
        self.pos = {}                   # id -> (x, y)

    def root(self):
        m = self.m
        m.fact(sym("root.xmin"), sym("root.xmax"), False)
        m.fact(sym("root.ymin"), sym("root.ymax"), False)
        bb = m.call("qt_new_bbox", [sym("root." + s) for s in ("xmin", "ymin", "xmax", "ymax")])
        return m.call("qt_new_leaf", [self.cap, bb])

    def box(self, p):
        bb = self.get(p, self.L, "bbox")
        return {s: self.get(bb, self.B, s) for s, _ in SIDES}

    def inside(self, k, box):
        """position k lies in the closed box"""
        x, y = sym("x%d" % k), sym("y%d" % k)
        for a, b in ((box["xmin"], x), (x, box["xmax"]), (box["ymin"], y), (y, box["ymax"])):
            if not (self.m.point(a) and self.m.point(b)):
                raise Unknown("box of a node")
            self.m.fact(a, b, False)
        return x, y

    def fill(self, leaf, n):
        """n further positions of the leaf, distinct, in its box"""
        for i in range(n):
            k = 100 + len(self.pos)
            x, y = self.inside(k, self.box(leaf))
            c = self.get(leaf, self.L, "count")
            arr = self.get(leaf, self.L, "positions")
            q = Ptr(arr.b, arr.off + c * self.h.size(self.P))
            for f, v in (("id", k), ("x", x), ("y", y)):
                self.put(q, self.P, f, v)
            self.put(leaf, self.L, "count", c + 1)
            self.pos[k] = (x, y)

    def child(self, p, slot):
        q, t = self.at(p, self.NL, slot)
        return self.m.load(q, "char *")

    def union(self, p):
        return ("struct", ((0, p),))

    def build(self, shape, leaf=None):
        """shape: count of a leaf, or four shapes (ul, ur, ll, lr); built with the header's own split of an empty leaf"""
        top = leaf is None
        if top:
            leaf = self.root()
        if isinstance(shape, int):
            self.fill(leaf, shape)
            return leaf
        p = self.m.call("qt_split", [leaf])
        if not isinstance(p, Ptr):
            raise Unknown("split of an empty leaf")
        for slot, s in zip(self.SLOTS, shape):
            self.build(s, self.child(p, slot))
        return p

    def check(self, root):
        m, errs, owned, found = self.m, [], set(), []

        def visit(p, parent, boxes, depth):
            if depth > 8:
                errs.append(("result", "the tree has a cycle"))
                return
            if not isinstance(p, Ptr):
                errs.append(("memory", "a node was never set"))
                return
            if p.b in owned:
                errs.append(("memory", "a node is reached twice: it would be released twice"))
                return
            owned.add(p.b)
            kind = self.get(p, self.L, "type")
            bb = self.get(p, self.L, "bbox")
            m.chk(bb, 0, "access")
            if bb.b in owned:
                errs.append(("memory", "two nodes share one bounding box"))
                return
            owned.add(bb.b)
            box = self.box(p)
            if kind == self.leaf:
                n, arr, mx = (self.get(p, self.L, f) for f in ("count", "positions", "max_positions"))
                m.chk(arr, 0, "access")
                owned.add(arr.b)
                if self.get(p, self.L, "parent") != parent:
                    errs.append(("result", "the parent of a leaf is not the node that holds it"))
                if mx != self.cap:
                    errs.append(("memory", "a leaf has another capacity than the tree"))
                if (n + 1) * self.h.size(self.P) > arr.b.size:
                    errs.append(("memory", "a leaf is full: the next insertion overruns its array"))
                for i in range(n):
                    q = Ptr(arr.b, arr.off + i * self.h.size(self.P))
                    k, x, y = (self.get(q, self.P, f) for f in ("id", "x", "y"))
                    if k not in self.pos or (x, y) != self.pos[k]:
                        errs.append(("result", "a leaf holds a position that was never inserted"))
                        return
                    found.append(k)
                    for b in boxes + [box]:
                        for lo, hi in ((b["xmin"], x), (x, b["xmax"]), (b["ymin"], y), (y, b["ymax"])):
                            if m.possible([(hi, lo, True)]):
                                errs.append(("result", "a position is stored in a node whose box does not contain it"))
                                return
            elif kind == self.nonleaf:
                for s in self.SLOTS:
                    visit(self.child(p, s), p, boxes + [box], depth + 1)
            else:
                errs.append(("result", "a node has no type"))
        visit(root, 0, [], 0)
        if not errs:
            for k in self.pos:
                if found.count(k) != 1:
                    errs.append(("result", "a position is %s in the tree" % ("not" if k not in found else "%d times" % found.count(k))))
                    break
        if not errs:
            errs += leaks(m, owned)
        return errs, owned


def bounded_splits(h, depth):
    """bound the nesting of splits: an inner split is the same operation on the same kind of state"""
    def split(m, a):
        if m.stack.count("qt_split") >= depth:
            raise Prune()
        return m.body("qt_split", a)
    return {"qt_split": split} if "qt_split" in h.funcs else {}


def qt_sequence_run(h, n, cap, more):
    """several insertions of points that follow each other along both axes"""
    def run(m):
        t = QTree(h, m, cap)
        top = t.build(n)
        box = t.box(top)
        posn, dup = m.new(h.size(t.P), "stack", label="position"), m.new(4, "stack", label="dup")
        m.store(dup, "int", 0)
        for step in range(more):
            k = 100 + len(t.pos)
            x, y = t.inside(k, box)
            for a, b in t.pos.values():
                m.fact(a, x, True)
                m.fact(b, y, True)
            for f, v in (("id", k), ("x", x), ("y", y)):
                t.put(posn, t.P, f, v)
            new = m.call("qt_insert", [t.union(top), m.load(posn, t.P), dup])
            top = new if isinstance(new, Ptr) else top
            t.pos[k] = (x, y)
        return t.check(top)[0]
    return run


def qt_insert_run(h, shape, cap):
    def run(m):
        t = QTree(h, m, cap)
        root = t.build(shape)
        old = dict(t.pos)
        k = 100 + len(t.pos)
        rb = t.box(root)
        x, y = t.inside(k, rb)
        posn = m.new(h.size(t.P), "stack", label="position")
        for f, v in (("id", k), ("x", x), ("y", y)):
            t.put(posn, t.P, f, v)
        dup = m.new(4, "stack", label="dup")
        m.store(dup, "int", 0)
        new = m.call("qt_insert", [t.union(root), m.load(posn, t.P), dup])
        d = m.load(dup, "int")
        if d is UNINIT or d is TOP:
            raise Unknown("dup")
        top = new if isinstance(new, Ptr) else root
        if d == -1:
            t.pos[k] = (x, y)
            for j, (a, b) in old.items():
                if not m.possible([(x, a, True)]) and not m.possible([(a, x, True)]) and \
                        not m.possible([(y, b, True)]) and not m.possible([(b, y, True)]):
                    return [("result", "a second point at the same place is not reported as a duplicate")]
        else:
            if d not in old:
                return [("result", "a duplicate of a point that is not stored is reported")]
            a, b = old[d]
            if any(m.possible([f]) for f in ((x, a, True), (a, x, True), (y, b, True), (b, y, True))):
                return [("result", "a point is taken for a duplicate of a point elsewhere")]
            if isinstance(new, Ptr):
                return [("result", "a duplicate changes the root")]
        return t.check(top)[0]
    return run


def qt_free_run(h, shape):
    def run(m):
        t = QTree(h, m, 3)
        root = t.build(shape)
        m.call("qt_free_node", [t.union(root)])
        return leaks(m, set())
    return run


def qt_search_real(h, shape, cap):
    def run(m):
        t = QTree(h, m, cap)
        root = t.build(shape)
        for c in ("x", "y"):
            m.fact(sym("q.%smin" % c), sym("q.%smax" % c), False)
        q = m.call("qt_new_bbox", [sym("q." + s) for s in ("xmin", "ymin", "xmax", "ymax")])
        m.boxes = {}

        def walk(p):
            n = 0
            if t.get(p, t.L, "type") == t.leaf:
                n = t.get(p, t.L, "count")
            else:
                for s in t.SLOTS:
                    n += walk(t.child(p, s))
            m.boxes[t.get(p, t.L, "bbox").b] = n
            return n
        walk(root)
        pool = m.call("qt_search_within", [t.union(root), q])
        got = drain(t, m, pool)
        errs = []
        for k, (x, y) in t.pos.items():
            spec = [(sym("q.xmin"), x, True), (x, sym("q.xmax"), True), (sym("q.ymin"), y, True), (y, sym("q.ymax"), True)]
            if got.count(k) > 1:
                errs.append(("result", "qt_search_within reports a point twice"))
            elif k in got:
                if any(m.possible([(b, a, False)]) for a, b, s in spec):
                    errs.append(("result", "qt_search_within reports a point that is not inside the box"))
            elif m.possible(spec):
                errs.append(("result", "qt_search_within misses a point inside the box"))
        if any(k not in t.pos for k in got):
            errs.append(("result", "qt_search_within reports a point that is not stored"))
        m.call("free", [q])
        return errs[:1] or t.check(root)[0]

    def overlaps(m, a):
        for p, o in (a, a[::-1]):
            if isinstance(p, Ptr) and isinstance(o, Ptr) and m.boxes.get(p.b) == 0:
                m.chk(o, 0, "access")
                return 0                                   # nothing below: either answer is right
        t = Layout(h, m)
        v = [{s: t.get(p, "BoundingBox", s) for s, _ in SIDES} for p in a]
        for c in ("x", "y"):
            if not (m.less(v[0][c + "min"], v[1][c + "max"], False) and m.less(v[1][c + "min"], v[0][c + "max"], False)):
                return 0
        return 1
    return run, ({"overlaps": overlaps} if "overlaps" in h.funcs else {})


def qt_search_oracle(h, shape, cap, everything=False):
    def run(m):
        t = QTree(h, m, cap)
        root = t.build(shape)
        for c in ("x", "y"):
            m.fact(sym("q.%smin" % c), sym("q.%smax" % c), False)
        q = m.call("qt_new_bbox", [sym("q." + s) for s in ("xmin", "ymin", "xmax", "ymax")])
        hit = {}

        def walk(p):
            any_ = False
            if t.get(p, t.L, "type") == t.leaf:
                arr = t.get(p, t.L, "positions")
                for i in range(t.get(p, t.L, "count")):
                    hit[arr.b, arr.off + i * h.size(t.P)] = v = everything or m.choose(2) == 1
                    hit["id", t.get(Ptr(arr.b, arr.off + i * h.size(t.P)), t.P, "id")] = v
                    any_ |= v
            else:
                for s in t.SLOTS:
                    any_ |= walk(t.child(p, s))
            hit[t.get(p, t.L, "bbox").b] = any_ or everything
            return any_
        walk(root)
        m.hit, m.q = hit, q
        pool = m.call("qt_search_within", [t.union(root), q])
        got = sorted(drain(t, m, pool))
        want = sorted(k for k in t.pos if hit["id", k])
        errs = []
        if got != want:
            errs.append(("result", "qt_search_within %s" % (
                "misses a point" if [k for k in want if k not in got] else
                "reports a point that is not in the box" if [k for k in got if k not in want] else "reports a point twice")))
        m.call("free", [q])
        return errs or t.check(root)[0]

    def iswithin(m, a):
        if a[0] == m.q and isinstance(a[1], Ptr) and (a[1].b, a[1].off) in m.hit:
            m.chk(a[1], h.size("PositionStruct"), "read")
            return int(m.hit[a[1].b, a[1].off])
        raise Unknown("arguments of iswithin")

    def overlaps(m, a):
        for p, o in (a, a[::-1]):
            if p == m.q and isinstance(o, Ptr) and o.b in m.hit:
                m.chk(o, h.size("BoundingBox"), "read")
                return int(m.hit[o.b])
        raise Unknown("arguments of overlaps")
    return run, {"iswithin": iswithin, "overlaps": overlaps}


def table_point(h):
    def run(m):
        t = Layout(h, m)
        b = rect(t, m, "BoundingBox", "q")
        p = m.new(h.size("PositionStruct"), label="position")
        for f, v in (("id", 7), ("x", sym("x")), ("y", sym("y"))):
            t.put(p, "PositionStruct", f, v)
        r = m.call("iswithin", [b, p])
        if not isinstance(r, int):
            raise Unknown("result of iswithin")
        spec = [(sym("q.xmin"), sym("x"), True), (sym("x"), sym("q.xmax"), True),
                (sym("q.ymin"), sym("y"), True), (sym("y"), sym("q.ymax"), True)]
        if r:
            if any(m.possible([(c, a, False)]) for a, c, s in spec):
                return [("result", "iswithin accepts a point that is not inside the box")]
        elif m.possible(spec):
            return [("result", "iswithin refuses a point inside the box")]
        return []
    return run


# ------------------------------------------------------------------------------------------------ the scenarios
HEADERS = {"rtree": "karta/vector/rtree.h", "quadtree": "karta/vector/quadtree.h"}


def thin(m):
    return [None] if m.nsplits % 2 else [(1, 3), (4, 0)]


def first_full(m):
    return None if m.nsplits == 1 else [(0, 1)]


def last_full(m):
    return [(2, 0)] if m.nsplits == 1 else None


def scenarios(which, h):
    """name -> (run, contracts, function the scenario is about)"""
    out = {}

    def add(name, f, rc, con=None):
        run, cons = rc if isinstance(rc, tuple) else (rc, {})
        cons = dict(cons)
        cons.update(con or {})
        out[name] = (run, cons, f)

    if which == "rtree":
        for n, k in (("minf", "min"), ("maxf", "max")):
            if n in h.funcs:
                add("table " + n, n, table_minmax(h, n, k))
        for n, k in (("is_within", "within"), ("is_overlapping", "overlapping")):
            if n in h.funcs:
                add("table " + n, n, table_boxes(h, n, k))
        if "linear_pick_seeds" in h.funcs:
            for n in (2, 3):
                add("seeds of %d" % n, "linear_pick_seeds", seeds_run(h, n),
                    {k: v for k, v in loose(h).items() if k in ("minf", "maxf")})
        if "linear_pick_next" in h.funcs:
            for n in (1, 2):
                add("next of %d" % n, "linear_pick_next", next_run(h, n), {k: v for k, v in loose(h).items() if k in ("minf", "maxf")})
        for k in (0, 1, 3):
            add("insert into a root leaf of %d" % k, "rt_insert", rt_insert_run(h, k), loose(h))
        for part in range(4):
            add("split of a root leaf (%d)" % part, "rt_split_leaf", rt_insert_run(h, 4),
                loose(h, lambda m, part=part: ([None] + [(i, j) for i in range(5) for j in range(5) if i != j])[part::4]))
        for shape in ([2, 1], [4, 1], [1, 4, 4], [[2, 1], [1, 1]], [[4, 1], [1]]):
            add("insert into %s" % shape, "rt_insert", rt_insert_run(h, shape), loose(h, thin, lambda m: False))
        for part in range(4):
            add("split of an inner node (%d)" % part, "rt_split_nonleaf", rt_insert_run(h, [4, 1, 1, 1]),
                loose(h, lambda m, part=part: [(2, 0)] if m.nsplits == 1 else
                      ([None] + [(i, j) for i in range(5) for j in range(5) if i != j])[part::4], lambda m: m.nsplits > 1))
        for shape in ([[4, 1, 1, 1], [1]], [[4, 1, 1, 1], [1], [1], [1]]):
            add("insert into %s" % shape, "rt_insert", rt_insert_run(h, shape),
                loose(h, lambda m: [None] if m.nsplits % 2 else [(1, 3)], lambda m: False))
        for shape in (0, 2, [2, 1], [[1, 1], [2]]):
            add("release of %s" % (shape,), "rt_free", rt_free_run(h, shape))
        for f, k in (("rt_search_within", "within"), ("rt_search_overlapping", "overlapping")):
            for shape in (0, 1, [1]):
                add("%s of %s" % (f, shape), f, rt_search_real(h, f, shape, k))
            if "is_within" in h.funcs and "is_overlapping" in h.funcs:
                for shape in (0, 3, [2, 1], [[1, 1], [2]], [1, [1], 1]):
                    for lim in (-1, 0, 1, 2):
                        add("%s of %s with limit %d" % (f, shape, lim), f, rt_search_oracle(h, f, shape, lim))
                add("%s of a full leaf" % f, f, rt_search_oracle(h, f, 40, -1, True, 40))
                add("%s of many nodes" % f, f, rt_search_oracle(h, f, [1] * 40, -1, True, 40))
    else:
        if "iswithin" in h.funcs:
            add("table iswithin", "iswithin", table_point(h))
        if "overlaps" in h.funcs:
            add("table overlaps", "overlaps", table_boxes(h, "overlaps", "overlapping"))
        two = bounded_splits(h, 2)
        for cap, n in ((3, 0), (3, 1), (4, 2)):
            add("insert into a leaf of %d" % n, "qt_insert", qt_insert_run(h, n, cap), two)
        add("split of a root leaf", "qt_split", qt_insert_run(h, 1, 2), two)
        add("two insertions", "qt_insert", qt_sequence_run(h, 1, 2, 2), two)
        add("split of a root leaf of 2", "qt_split", qt_insert_run(h, 2, 3), two)
        for shape in ([1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]):
            add("insert into %s" % shape, "qt_insert", qt_insert_run(h, shape, 2), two)
            add("insert below %s" % shape, "qt_insert",
                qt_insert_run(h, [([0, 0, 1, 0] if v else 0) for v in shape], 2), bounded_splits(h, 3))
        for shape in (0, 2, [1, 0, 2, 0], [0, [1, 0, 0, 1], 0, 1]):
            add("release of %s" % (shape,), "qt_free_node", qt_free_run(h, shape))
        for shape in (0, 1, [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1]):
            add("qt_search_within of %s" % (shape,), "qt_search_within", qt_search_real(h, shape, 3))
        if "overlaps" in h.funcs and "iswithin" in h.funcs:
            for shape in (3, [1, 1, 1, 1], [[1, 0, 1, 0], 1, 0, [0, 0, 0, 1]]):
                add("qt_search_within of %s, all outcomes" % (shape,), "qt_search_within", qt_search_oracle(h, shape, 4))
            add("qt_search_within of a full leaf", "qt_search_within", qt_search_oracle(h, 70, 80, True))
            full = 1
            for i in range(3):
                full = [full, full, full, full] if i < 2 else full
            add("qt_search_within of many nodes", "qt_search_within", qt_search_oracle(h, [full] * 4, 4, True))
    for size in (1, 2, 3):
        for count in range(size + 1):
            add("pool of %d with %d, add" % (size, count), "pool_add", pool_run(h, size, count, "add"))
            for i in range(count):
                add("pool of %d with %d, pop %d" % (size, count, i), "pool_pop", pool_run(h, size, count, ("pop", i)))
    if "ll_new" in h.funcs:
        for n in (1, 2, 3):
            for op in ("destroy", "head", "last"):
                add("list of %d, %s" % (n, op), "ll_" + op, list_run(h, n, op))
    return out


def _one(args):
    which, name, repo, deadline = args
    if time.time() > deadline:
        return name, None, 0, 0, [], "time"
    stop = min(deadline, time.time() + 150)
    h = _header(which, repo)
    run, cons, f = scenarios(which, h)[name]
    paths, errs, steps = 0, [], 0
    try:
        for m, res, fault in explore(h, run, cons, limit=12000, budget=60000):
            paths += 1
            steps += m.steps
            if time.time() > stop:
                return name, f, paths, steps, errs, "time"
            if fault is not None:
                e = ("memory", fault.what, fault.where)
            elif res:
                e = (res[0][0], res[0][1], None)
            else:
                continue
            if e not in errs:
                errs.append(e)
            if len(errs) > 3 or (errs and paths > 300):
                break
    except Unknown as u:
        return name, f, paths, steps, errs, str(u)
    except RecursionError:
        return name, f, paths, steps, errs, "recursion"
    return name, f, paths, steps, errs, None


_headers = {}


def _header(which, repo):
    if (which, repo) not in _headers:
        _headers[which, repo] = cfront.load(os.path.join(repo, HEADERS[which]), HEADERS[which])
    return _headers[which, repo]


def run_all(repo):
    """[(header, scenario, function, paths, steps, errors, undecided)], headers"""
    import multiprocessing
    import sys
    sys.setrecursionlimit(20000)
    jobs, heads = [], {}
    deadline = time.time() + 450
    for which in HEADERS:
        h = heads[which] = _header(which, repo)
        for name in scenarios(which, h):
            jobs.append((which, name, repo, deadline))
    jobs.sort(key=lambda j: 0 if "split" in j[1] or "insert" in j[1] else 1)
    with multiprocessing.Pool(min(8, os.cpu_count() or 1)) as pool:
        res = pool.map(_one, jobs, chunksize=1)
    return [(j[0],) + r for j, r in zip(jobs, res)], heads
