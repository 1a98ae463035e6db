"""C07: spatial indexes neither leak, double-free nor overrun their memory."""
from .. import pxindex
from ..loader import Program
from ..report import Report
from .c06 import collect

RULE = ("The same abstract runs as for C06, with an exact model of the heap: every access lies within a live block and reads a "
        "value that was set, every block is released once, blocks are owned by the tree or the result pool or released when an "
        "operation returns, arrays keep room for the next insertion, and pools and lists grow, shrink and go without leaks for "
        "every size. In the Cython wrappers every block obtained on a path is released or handed over exactly once after its "
        "last use, with the matching function, and the tree belongs to the object whenever an exception can occur.")


TECHNIQUE = "abstract interpretation of the C headers with block ownership and capacities; allocation and release paths of the Cython wrappers"

def check():
    rep = Report("C07", RULE)
    rep.assumptions = ["malloc succeeds", "conversions of numbers between allocation and release do not raise"]
    collect(rep, "memory")
    pxindex.memory(Program(), rep)
    return rep
