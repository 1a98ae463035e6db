"""Does a value take in every element of a collection?  (iteration-coverage analysis on value terms)"""
import itertools
from .terms import T, mk, walk, contains, is_const, cval, children

SEQ = ("list", "tuple", "iter", "reversed", "sorted", "enumerate", "array", "numpy.array", "numpy.asarray", "zip")


def ext_name(t):
    return t.args[0].args[0] if t.op == "call" and t.args[0].op == "ext" else None


def int_const(t):
    return is_const(t) and isinstance(cval(t), int) and not isinstance(cval(t), bool)


def slice_start(s):
    """start of a slice that runs to the end, or None"""
    lo, hi, st = s.args
    if not (is_const(hi) and cval(hi) is None):
        return None
    if not (is_const(st) and cval(st) in (None, 1)):
        return None
    if is_const(lo) and cval(lo) is None:
        return 0
    return cval(lo) if int_const(lo) and cval(lo) >= 0 else None


def iter_start(it, S):
    """index from which iterating `it` visits S to its end; 'partial', 'other' or None (unrelated)"""
    if it is S:
        return 0
    if it.op == "item" and it.args[0] is S and it.args[1].op == "slice":
        r = slice_start(it.args[1])
        return "partial" if r is None else r
    n = ext_name(it)
    if n == "range":
        a = [x for _, x in it.args[1]]
        L = mk("len", S)
        if len(a) == 1 and a[0] is L:
            return 0
        if len(a) == 2 and a[1] is L and int_const(a[0]):
            return cval(a[0])
        if contains(it, L):
            return "partial" if len(a) < 3 else "other"
        return None
    if n in SEQ:
        r = [iter_start(x, S) for _, x in it.args[1]]
        r = [x for x in r if x is not None]
        return r[0] if r else None
    if it.op in ("list", "tuple") and len(it.args) == 1 and it.args[0].op == "star":
        return iter_start(it.args[0].args[0], S)
    if it.op in ("list", "gen") and it.args and all(e.op == "each" for e in it.args):
        e = it.args[0]
        r = iter_start(e.args[0], S)
        if r is not None:
            return r if not e.args[2] else "other"
    return None


def exhaustive(conjs):
    """do the conjunctions ((cond, value), ...) cover every case"""
    conjs = [tuple(c) for c in conjs]
    if any(not c for c in conjs):
        return True
    atoms = []
    for c in conjs:
        for a, _ in c:
            if a not in atoms:
                atoms.append(a)
    if len(atoms) > 10:
        return None
    for bits in itertools.product((False, True), repeat=len(atoms)):
        env = dict(zip(atoms, bits))
        if not any(all(env[a] == v for a, v in c) for c in conjs):
            return False
    return True


class Coverage(object):
    def __init__(self, S, start=0):
        self.S = S
        self.start = start
        self.tags = set()
        self.seen = set()

    def scan(self, x):
        S = self.S
        if isinstance(x, tuple):
            for a in x:
                self.scan(a)
            return
        if not isinstance(x, T) or x in self.seen:
            return
        self.seen.add(x)
        if x is S:
            self.tags.add(0)
            return
        if x.op == "len":
            return
        if x.op == "item" and x.args[0] is S:
            k = x.args[1]
            if k.op == "slice":
                self.tags.add(iter_start(x, S))
            elif k.op == "elem":
                r = iter_start(k.args[0], S)
                self.tags.add("one" if r is None else r)
            else:
                self.tags.add("one")
            return
        if x.op == "elem":
            r = iter_start(x.args[0], S)
            if r is not None:
                self.tags.add(r)
                return
            self.scan(x.args[0])
            return
        if x.op in ("list", "tuple", "gen", "dict", "set"):
            groups = {}
            for e in x.args:
                if isinstance(e, T) and e.op == "each":
                    groups.setdefault((e.args[0], e.args[1]), []).append(e)
                else:
                    self.scan(e)
            for (it, depth), es in groups.items():
                r = iter_start(it, S)
                if r is None:
                    self.scan(it)
                    for e in es:
                        self.scan(e.args[3])
                    continue
                el = mk("elem", it, depth)
                used = [e for e in es if contains(e.args[3], el)]
                if used:
                    ex = exhaustive([e.args[2] for e in used])
                    self.tags.add(r if ex else ("filtered" if ex is False else "other"))
                else:
                    for e in es:
                        self.scan(e.args[3])
            return
        if x.op == "fold":
            r = iter_start(x.args[0], S)
            if r is not None:
                lv = x.args[2]
                el = mk("elem", x.args[0], x.args[1])
                used = [(c, v) for c, v in x.args[4] if v is not lv and contains(v, el)]
                if used:
                    ex = exhaustive([c for c, v in used])
                    self.tags.add(r if ex else ("filtered" if ex is False else "other"))
                self.scan(x.args[3])
                return
        for a in x.args:
            self.scan(a)

    def verdict(self):
        ints = [t for t in self.tags if isinstance(t, int)]
        if ints and min(ints) <= self.start:
            return "full"
        if "other" in self.tags:
            return "unknown"
        return "partial" if self.tags else "none"


def coverage(t, S, start=0):
    c = Coverage(S, start)
    c.scan(t)
    return c.verdict()
