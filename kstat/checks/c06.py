"""C06: spatial-index box searches return exactly the items in the box."""
from .. import ctree, pxindex, pyindex
from ..loader import Program
from ..report import Report

RULE = ("Inductive invariants of the two trees, decided by abstract interpretation of the C headers: from every shape of valid "
        "start state (capacities of 2 to 4, every choice of the splitting heuristics, coordinates as symbols of which only the "
        "order is known, all orders followed) an insertion leaves each item in exactly one leaf under its own index, the box of "
        "every node containing the boxes below it, and parents that hold their children. The predicates agree with closed "
        "containment and intersection (R-tree) and the open box (quadtree) for every order of the coordinates; searches report "
        "exactly the selected items, for every outcome of the predicates and every limit. The Cython wrappers fill the boxes "
        "field by field, number items by position, file duplicates under the stored point and return every result.")


TECHNIQUE = "abstract interpretation of the C headers over heap shapes and orders of coordinates; value terms for the Cython wrappers"

def collect(rep, kind):
    from ..loader import REPO
    import os
    repo = os.environ.get("KSTAT_REPO", REPO)
    res, heads = ctree.run_all(repo)
    paths = steps = 0
    for which, name, f, n, st, errs, undecided in res:
        paths += n
        steps += st
        rel = ctree.HEADERS[which]
        h = heads[which]
        fn = h.funcs.get(f)
        where = "%s:%s" % (rel, fn.line) if fn is not None and getattr(fn, "line", None) else rel
        mine = [e for e in errs if e[0] == kind]
        for k, what, line in mine:
            rep.bad("heap" if kind == "memory" else "state", "%s: %s" % (f, what.split(" at line")[0]),
                    "%s, %s%s" % (name, what, " (line %s)" % line if line else ""), where)
        if undecided:
            rep.undec("%s: %s (%s)" % (rel, name, undecided))
        elif errs and not mine:
            rep.undec("%s: %s breaks off" % (rel, name))
        elif n:
            rep.ok("%s (%d paths)" % (name, n), rel)
    for h, rel in ((heads[w], ctree.HEADERS[w]) for w in heads):
        for f in h.funcs:
            rep.fn("%s: %s" % (rel, f))
    rep.notes.append("%d scenarios, %d paths, %d statements interpreted" % (len(res), paths, steps))


def check():
    rep = Report("C06", RULE)
    rep.assumptions = ["capacities are at least 4 (R-tree, enforced) and 2 (quadtree)",
                       "bounding boxes handed to the trees are ordered and free of NaN",
                       "conversion to single precision is monotone, so the R-tree's closed boxes never miss"]
    collect(rep, "result")
    p = Program()
    pxindex.results(p, rep)
    pyindex.check(p, rep)
    return rep
