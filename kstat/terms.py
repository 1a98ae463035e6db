"""Hash-consed value terms (the value-numbering domain of the analyses)."""

_POOL = {}


class T(object):
    __slots__ = ("op", "args", "_hash", "_free")

    def __repr__(self):
        return fmt(self)

    def __hash__(self):
        return self._hash

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __lt__(self, other):
        return skey(self) < skey(other)


def mk(op, *args):
    key = (op,) + tuple((type(a), a) if isinstance(a, (bool, int, float)) else a
                        for a in args)
    t = _POOL.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t._hash = hash(key)
        _POOL[key] = t
    return t


_SK = {}


def skey(t):
    """A stable (run independent) sort key."""
    k = _SK.get(t)
    if k is None:
        k = _SK[t] = fmt(t)
    return k


def const(v):
    return mk("const", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t):
    return isinstance(t, T) and t.op == "const"


def cval(t):
    return t.args[1]


def children(t):
    """Direct T children (looking through tuples)."""
    stack = list(t.args)
    out = []
    while stack:
        a = stack.pop(0)
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            stack = list(a) + stack
    return out


def walk(t, seen=None):
    """All sub-terms of t, once each."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.args)


def contains(t, sub):
    return any(x is sub for x in walk(t))


def subst(t, mapping, memo=None):
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, T):
            if x in mapping:
                return mapping[x]
            if x in memo:
                return memo[x]
            args = tuple(go(a) for a in x.args)
            r = x if args == x.args else rebuild(x.op, args)
            memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(a) for a in x)
        return x
    return go(t)


def rebuild(op, args):
    if op == "item" and len(args) == 2:
        return item(*args)
    return mk(op, *args)


def item(base, key):
    """base[key] with simplification of constant indices."""
    if base.op in ("tuple",) and key.op == "const" and isinstance(cval(key), int):
        n = len(base.args)
        if not any(a.op == "star" for a in base.args) and -n <= cval(key) < n:
            return base.args[cval(key)]
    if base.op == "list" and key.op == "const" and isinstance(cval(key), int) \
            and all(a.op not in ("each", "star", "set") for a in base.args):
        n = len(base.args)
        if -n <= cval(key) < n:
            return base.args[cval(key)]
    if base.op == "dict" and key.op == "const":
        for e in reversed(base.args):
            if e.op != "kv" or e.args[0].op != "const":
                break
            if e.args[0] is key:
                return e.args[1]
    if base.op in ("tuple", "list") and key.op == "slice" \
            and all(a.op not in ("each", "star", "set") for a in base.args) \
            and all(k.op == "const" and (cval(k) is None or isinstance(cval(k), int))
                    for k in key.args):
        return mk(base.op, *base.args[slice(*[cval(k) for k in key.args])])
    # x[a:][k] -> x[a+k]
    if base.op == "item" and base.args[1].op == "slice" and key.op == "const" \
            and isinstance(cval(key), int) and cval(key) >= 0:
        a, b, c = base.args[1].args
        if all(k.op == "const" and (cval(k) is None or isinstance(cval(k), int))
               for k in (a, b, c)) and cval(c) in (None, 1):
            lo = cval(a) or 0
            hi = cval(b)
            if lo >= 0 and (hi is None or (hi >= 0 and lo + cval(key) < hi)):
                return item(base.args[0], const(lo + cval(key)))
    return mk("item", base, key)


def _q(a):
    if isinstance(a, T):
        return fmt(a)
    if isinstance(a, tuple):
        return "(" + ", ".join(_q(x) for x in a) + ")"
    return str(a)


_FM = {}


def fmt(t):
    s = _FM.get(t)
    if s is not None:
        return s
    op, a = t.op, t.args
    if op == "const":
        s = repr(a[1])
    elif op == "param":
        s = a[0]
    elif op == "attr":
        s = "%s.%s" % (_q(a[0]), a[1])
    elif op == "item":
        s = "%s[%s]" % (_q(a[0]), _q(a[1]))
    elif op == "slice":
        s = ":".join("" if x is NONE else _q(x) for x in a)
        s = s if a[2] is not NONE else ":".join("" if x is NONE else _q(x) for x in a[:2])
    elif op == "bin":
        s = "(%s %s %s)" % (_q(a[1]), a[0], _q(a[2]))
    elif op == "cmp":
        s = "(%s %s %s)" % (_q(a[1]), a[0], _q(a[2]))
    elif op == "un":
        s = "(%s%s)" % (a[0], _q(a[1]))
    elif op == "not":
        s = "not %s" % _q(a[0])
    elif op in ("and", "or"):
        s = "(" + (" %s " % op).join(_q(x) for x in a) + ")"
    elif op in ("class", "func", "mod", "ext"):
        s = a[0].split(".")[-1] if op != "ext" else a[0]
    elif op in ("call", "new"):
        s = "%s(%s)" % (_q(a[0]), _args(a[1]))
    elif op == "mcall":
        s = "%s.%s(%s)" % (_q(a[0]), a[1], _args(a[2]))
    elif op == "tuple":
        s = "(" + ", ".join(_q(x) for x in a) + ")"
    elif op == "list":
        s = "[" + ", ".join(_q(x) for x in a) + "]"
    elif op == "dict":
        s = "{" + ", ".join(_q(x) for x in a) + "}"
    elif op == "kv":
        s = "%s: %s" % (_q(a[0]), _q(a[1]))
    elif op == "each":
        s = "%s for #%d in %s%s" % (_q(a[3]), a[1], _q(a[0]),
                                    "".join(" if " + ("" if v else "not ") + _q(c) for c, v in a[2]))
    elif op == "elem":
        s = "elem%d<%s>" % (a[1], _q(a[0]))
    elif op == "isnone":
        s = "%s is None" % _q(a[0])
    elif op == "isinstance":
        s = "isinstance(%s, %s)" % (_q(a[0]), _q(a[1]))
    elif op == "typeof":
        s = "type(%s)" % _q(a[0])
    else:
        s = "%s<%s>" % (op, ", ".join(_q(x) for x in a))
    _FM[t] = s
    return s


def _args(args):
    return ", ".join(_q(v) if isinstance(k, int) else "%s=%s" % (k, _q(v)) for k, v in args)


def arg(t, *names):
    """The argument of a call/new/mcall term named (or at position) one of names."""
    pairs = t.args[-1]
    for n in names:
        for k, v in pairs:
            if k == n and type(k) == type(n):
                return v
    return None
