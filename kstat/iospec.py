"""Reading of value terms that describe file contents: formatted text, row orientation of arrays, rational formulas."""
import re
from .terms import T, mk, const, is_const, cval, walk
from .poly import Norm, Rat, ratom, rconst


def same(a, b):
    try:
        return (a - b).zero()
    except Exception:
        return False


def extname(t):
    if t.op == "call" and t.args[0].op in ("ext", "builtin", "global"):
        return t.args[0].args[-1]
    return None


def cargs(t):
    return [a[1] for a in (t.args[1] if t.op == "call" else t.args[2])]


def pieces(t):
    """format text and operands of a string built from values"""
    if is_const(t) and isinstance(cval(t), str):
        return cval(t), []
    if t.op == "mcall" and t.args[1] in ("strip", "rstrip", "lstrip"):
        return pieces(t.args[0])
    if t.op == "mcall" and t.args[1] == "format" and is_const(t.args[0]):
        s = cval(t.args[0])
        vals = []
        for k, x in t.args[2]:
            key = "{%s}" % k
            if key not in s and isinstance(k, int):
                key = "{}"
            if key in s:
                s = s.replace(key, "\0%d\0" % len(vals), 1)
                vals.append(x)
        return s, vals
    if t.op == "bin" and t.args[0] == "%" and is_const(t.args[1]):
        s = cval(t.args[1])
        ops = list(t.args[2].args) if t.args[2].op == "tuple" else [t.args[2]]
        vals = []
        parts = re.split(r"%[0-9.]*[srdfg]", s)
        if len(parts) != len(ops) + 1:
            return None, []
        out = parts[0]
        for x, e in zip(ops, parts[1:]):
            out += "\0%d\0" % len(vals) + e
            vals.append(x)
        return out, vals
    if t.op == "bin" and t.args[0] == "+":
        (a, va), (b, vb) = pieces(t.args[1]), pieces(t.args[2])
        if a is None or b is None:
            return None, []
        b = re.sub("\0(\\d+)\0", lambda m: "\0%d\0" % (int(m.group(1)) + len(va)), b)
        return a + b, va + vb
    if t.op in ("param", "call", "attr", "item"):
        return "\0000\0", [t]
    return None, []


def text_of(t):
    """format text and operands of a written string, also through join"""
    if t.op == "mcall" and t.args[1] == "join" and is_const(t.args[0]) and t.args[2]:
        x = t.args[2][0][1]
        if x.op in ("list", "tuple") and not any(a.op in ("each", "star") for a in x.args):
            sep, out, vals = cval(t.args[0]), "", []
            for i, a in enumerate(x.args):
                s, v = text_of(a)
                if s is None:
                    return None, []
                s = re.sub("\0(\\d+)\0", lambda m: "\0%d\0" % (int(m.group(1)) + len(vals)), s)
                out += (sep if i else "") + s
                vals = vals + v
            return out, vals
        return None, []
    if t.op == "bin" and t.args[0] == "+":
        a, va = text_of(t.args[1])
        b, vb = text_of(t.args[2])
        if a is None or b is None:
            return None, []
        return a + re.sub("\0(\\d+)\0", lambda m: "\0%d\0" % (int(m.group(1)) + len(va)), b), va + vb
    if t.op == "call" and extname(t) in ("str", "repr", "float", "int"):
        return "\0000\0", [t]
    return pieces(t)


NONE_SLICE = ("slice",)


def reversing(s):
    """True/False/None: the slice reverses / keeps / changes an axis"""
    if s.op != "slice":
        return None
    a, b, c = s.args
    full = all(is_const(x) and cval(x) is None for x in (a, b))
    if not full:
        return None
    if is_const(c):
        if cval(c) in (None, 1):
            return False
        if cval(c) == -1:
            return True
    return None


class Flips(object):
    """Parity of row reversals between a value and a source array; None when not recognised."""
    def __init__(self, source):
        self.source = source     # predicate: this term is the source
        self.found = None

    def __call__(self, t, depth=0):
        if depth > 40:
            return None
        if self.source(t):
            self.found = t
            return 0
        rec = lambda x: self(x, depth + 1)
        if t.op == "item":
            b, k = t.args
            k0 = k.args[0] if k.op == "tuple" and k.args else k
            r = reversing(k0)
            if r is None:
                return None
            p = rec(b)
            return None if p is None else (p + (1 if r else 0)) % 2
        if t.op == "upd":
            return rec(t.args[0])
        n = extname(t)
        if n in ("numpy.flipud",):
            p = rec(cargs(t)[0])
            return None if p is None else 1 - p
        if n == "numpy.flip":
            a = cargs(t)
            if len(a) < 2 or not is_const(a[1]) or cval(a[1]) != 0:
                return None
            p = rec(a[0])
            return None if p is None else 1 - p
        if n in ("reversed",):
            p = rec(cargs(t)[0])
            return None if p is None else 1 - p
        if n in ("numpy.array", "numpy.asarray", "numpy.squeeze", "numpy.ascontiguousarray", "list", "tuple", "iter",
                 "numpy.copy", "map"):
            return rec(cargs(t)[-1] if n == "map" else cargs(t)[0])
        if t.op == "mcall" and t.args[1] in ("tolist", "copy", "astype", "squeeze", "__iter__"):
            return rec(t.args[0])
        if t.op in ("list", "arr") and len([a for a in t.args if isinstance(a, T)]) == 1 and t.args[0].op == "each":
            return rec(t.args[0])
        if t.op == "each":
            return rec(t.args[0])
        return None
