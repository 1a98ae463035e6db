"""C21: every documented option has its effect."""
import ast
import re

from ..interp import Interp, Policy
from ..loader import Program, ClassInfo, FuncInfo
from ..report import Report
from ..terms import T, children, fmt
from .c20 import Uses, passes, own, complete, all_classes, prune, rebound
from ..external import External

TECHNIQUE = "parameter liveness on path-wise value terms, option hand-over analysis at call sites"
RULE = ("For every function and method: each parameter's initial value occurs in a returned or yielded value, a "
        "condition, or an effect of some path, and where it occurs only in conditions the outcomes on the two sides "
        "differ; *args/**kwargs are read. A caller's option is not handed to a differently named parameter while the "
        "parameter of its own name is left to its default or receives another option; a call does not omit an option "
        "that another path of the same function hands to the same operation; keywords swallowed by **kwargs are "
        "consumed under that name. An option that matters on one side of a dispatch on the kind of coordinate system matters on the other. Options of a Parameters section that do not exist are noted.")
# parameters of a shared interface that cannot matter for one implementation
# options that cannot matter for one kind of coordinate system
KINDS = {("distance", "projected"): "a geographical system has no planar distance to choose"}
INTERFACE = {("project", "inverse"): "projection of coordinates that need none is its own inverse",
             ("transform", "args"): "not defined for this system"}


class Flow(Policy):
    max_states = 800
    max_depth = 1

    def inline(self, i, f, recv, d):
        return False


def functions(p):
    for m in p.modules.values():
        for f in m.funcs.values():
            yield f, None
        for c in m.classes.values():
            for f in list(c.methods.values()) + list(c.setters.values()):
                yield f, c


def params(f, c):
    ps = list(f.pos)
    if c is not None and not f.is_static and ps:
        ps = ps[1:]
    return [x for x in ps + f.kwonly if not x.startswith("_")]


def reads(fn):
    return {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def only_raises(f):
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return not body or all(isinstance(s, (ast.Raise, ast.Pass)) for s in body[:1])


def public(f, c):
    n = f.name
    if c is not None and c.name.startswith("_"):
        return False
    return not n.startswith("_") or (n.startswith("__") and n.endswith("__"))


def interface(p, f, c, x):
    """a method whose other implementations use the parameter while this one cannot"""
    if c is None:
        return False
    if (f.name, x) in INTERFACE and c.name in ("CartesianCRS", "GeographicalCRS"):
        return True
    return False


def liveness(p, rep):
    for f, c in functions(p):
        ps = params(f, c)
        rep.fn(f.qual)
        rd = reads(f.node)
        for v in (f.vararg, f.kwarg):
            if v and v not in rd and not only_raises(f) and public(f, c) and v != "_":
                rep.bad("ignored", "%s %s" % (f.qual, v), "the arguments %s are never used" % v, f.where)
        if not ps or only_raises(f):
            continue
        dead = [x for x in ps if x not in rd and x not in captured(f)]
        used = None
        if f.module.lang == "py" and not f.is_generator:
            used, outcome, lost = flow(p, f, c, rep)
            for x, side in lost:
                if x in ps and x in f.defaults and public(f, c) and (f.name, x) not in KINDS:
                    rep.bad("one-kind", "%s %s" % (f.qual, x), "the option %s has its effect only where not %s" % (x, side)
                            if side[0] != "!" else "the option %s has its effect only where %s" % (x, side[1:]), f.where)
        for x in ps:
            if x in dead or (used is not None and x not in used):
                if f.is_setter or interface(p, f, c, x) or dunder(f, x):
                    continue
                if f.module.lang == "pyx" and x not in dead:
                    continue
                if public(f, c):
                    if overridden(p, f, c, x):
                        rep.ok("%s: parameter %s belongs to an interface" % (f.qual, x), f.where)
                        continue
                    rep.bad("ignored", "%s %s" % (f.qual, x), "the parameter %s has no effect on any path" % x, f.where)
                else:
                    who = handed(p, f, c, x)
                    if who:
                        rep.bad("ignored", "%s %s" % (f.qual, x), "%s is handed on by %s but has no effect" % (x, who), f.where)
            else:
                rep.ok("%s: %s is used" % (f.qual, x), f.where)
                if used is not None and public(f, c) and x in outcome and not outcome[x]:
                    rep.bad("ineffective", "%s %s" % (f.qual, x), "%s is tested but the outcome is the same either way" % x,
                            f.where)


def dunder(f, x):
    return f.name in ("__exit__", "__enter__", "__getattr__", "__deepcopy__", "__reduce_ex__")


def overridden(p, f, c, x):
    """an abstract default: some subclass or sibling of the same hierarchy uses the parameter"""
    if c is None:
        return False
    body = [s for s in f.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    simple = len(body) == 1 and isinstance(body[0], (ast.Return, ast.Raise, ast.Pass))
    if not simple:
        return False
    return any(c in s.mro() and s is not c and f.name in s.methods for s in all_classes(p))


def captured(f):
    return set()


def handed(p, f, c, x):
    """callers that pass one of their own parameters for x"""
    if x not in f.pos:
        return None
    pos = f.pos.index(x) - (1 if c is not None and not f.is_static else 0)
    for g, gc in functions(p):
        if g is f:
            continue
        own_params = set(params(g, gc))
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and called(n) == f.name:
                a = None
                if pos < len(n.args) and not any(isinstance(y, ast.Starred) for y in n.args[:pos + 1]):
                    a = n.args[pos]
                for k in n.keywords:
                    if k.arg == x:
                        a = k.value
                if isinstance(a, ast.Name) and a.id in own_params:
                    return g.qual
    return None


def called(n):
    if isinstance(n.func, ast.Name):
        return n.func.id
    if isinstance(n.func, ast.Attribute):
        return n.func.attr
    return None


_PS = {}


def pset(t):
    """names of the parameters in a term (memoised over shared subterms)"""
    stack = [t]
    while stack:
        x = stack[-1]
        if x in _PS:
            stack.pop()
            continue
        ch = children(x)
        todo = [y for y in ch if y not in _PS]
        if todo:
            stack.extend(todo)
            continue
        s = frozenset([x.args[0]]) if x.op == "param" else frozenset()
        for y in ch:
            if not _PS[y] <= s:
                s = s | _PS[y]
        _PS[x] = s
        stack.pop()
    return _PS[t]


def pure(e):
    """an evaluation without effect of its own: what it computes counts only where it is used"""
    if e.kind in ("enter", "leave", "new"):
        return True
    t = e.term
    if e.kind == "call" and isinstance(t, T):
        if t.op == "new":
            return True
        if t.op == "call" and t.args[0].op in ("ext", "builtin"):
            n = t.args[0].args[0]
            return n.split(".")[0] in ("numpy", "math") or n in PURE
    return False


PURE = {"len", "abs", "min", "max", "int", "float", "str", "bool", "tuple", "list", "dict", "set", "range", "zip",
        "isinstance", "hasattr", "getattr", "sum", "sorted", "enumerate", "round", "type"}


_FOLD = {}


def has_fold(t):
    stack = [t]
    while stack:
        x = stack[-1]
        if x in _FOLD:
            stack.pop()
            continue
        ch = children(x)
        todo = [y for y in ch if y not in _FOLD]
        if todo:
            stack.extend(todo)
            continue
        _FOLD[x] = x.op == "fold" or any(_FOLD[y] for y in ch)
        stack.pop()
    return _FOLD[t]


def flow(p, f, c, rep):
    i = Interp(p, Flow())
    try:
        paths = i.run(f, c)
    except Exception as e:
        return None, {}, []
    if not paths or (len(paths) == 1 and any(isinstance(n, ast.While) for n in ast.walk(f.node)) and False):
        return None, {}, []
    used, seen = set(), set()
    outside = set()
    outs = []
    for pa in paths:
        eff = []
        if pa.value is not None:
            eff.append(i.reify(pa.value, pa.state))
        conds = [x for x, _ in pa.conds]
        for e in pa.events:
            if pure(e):
                if isinstance(e.term, T):
                    used |= pset(i.reify(e.term, pa.state))
                continue
            if isinstance(e.term, T):
                eff.append(i.reify(e.term, pa.state))
            eff += [i.reify(x, pa.state) for x in (e.extra or ()) if isinstance(x, T)]
            conds += [x for x, _ in e.conds]
        for v in pa.state.env.values():
            pass
        for t in eff:
            outside |= pset(t)
        for t in conds:
            used |= pset(t)
        outs.append((pa, eff))
    used |= outside
    # loops may be summarised: fall back on reads inside loops and nested functions
    for n in ast.walk(f.node):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.While, ast.For, ast.ListComp, ast.GeneratorExp, ast.DictComp,
                          ast.SetComp, ast.Try, ast.With)) and n is not f.node:
            used |= {y.id for y in ast.walk(n) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load)}
    outcome = {}
    for x in used - outside:
        res = {}
        for pa, eff in outs:
            pol = tuple(b for t, b in pa.conds if x in pset(t))
            rest = frozenset((t, b) for t, b in pa.conds if x not in pset(t))
            res.setdefault(rest, {}).setdefault(pol, set()).add((pa.kind, tuple(eff)))
        differ = False
        for rest, byp in res.items():
            vals = list(byp.values())
            if any(v != vals[0] for v in vals) or (len(vals) == 1 and () not in byp):
                differ = True
        # conditions inside loops decide effects that the path summary does not split
        if any(x in pset(t) for pa, _ in outs for e in pa.events if not pure(e) for t, b in e.conds if (t, b) not in pa.conds):
            differ = True
        outcome[x] = differ or not any(
            x in pset(t) for pa, _ in outs for t, _ in pa.conds)
    return used, outcome, one_kind(i, paths, f)


CRS_KINDS = ("GeographicalCRS", "CartesianCRS", "ProjectedCRS")


def one_kind(i, paths, f):
    """parameters that matter on one side of a dispatch on the kind of coordinate system, and never on the other"""
    sides = {}
    for pa in paths:
        if pa.kind != "return":
            continue
        atoms = [(t, bool(b)) for t, b in pa.conds
                 if isinstance(t, T) and t.op == "isinstance" and any(k in fmt(t) for k in CRS_KINDS)]
        if not atoms:
            continue
        s = set(pset(i.reify(pa.value, pa.state))) if pa.value is not None else set()
        for e in pa.events:
            for x in [e.term] + list(e.extra or ()):
                if isinstance(x, T):
                    s |= pset(i.reify(x, pa.state))
            for t, _ in e.conds:
                s |= pset(t)
        for t, _ in pa.conds:
            s |= pset(t)
        for t, b in atoms:
            sides.setdefault(t, {}).setdefault(b, set()).update(s)
    out = []
    for t, d in sides.items():
        if len(d) == 2:
            name = fmt(t)[:60]
            out += [(x, "!" + name) for x in sorted(d[True] - d[False])]
            out += [(x, name) for x in sorted(d[False] - d[True])]
    return out


# ------------------------------------------------------------------ hand-over at calls

class Calls(Uses):
    """records resolved calls: (caller, call, callee, skip)"""
    def __init__(self, p, m, ext):
        Uses.__init__(self, p, m, ext, Report("C21", ""), Every(), set())
        self.calls = []

    def accepts(self, n, f, skip):
        if passes(self.p, f) is None:
            return
        self.calls.append((self.fn[0] if self.fn else None, self.cls, n, f, skip))

    def duck(self, n):
        cands = self.p.by_method.get(n.func.attr)
        if not cands or any(f.is_property or passes(self.p, f) is None for f in cands):
            return
        if len(cands) == 1 or len({tuple(f.pos) for f in cands}) == 1:
            self.calls.append((self.fn[0] if self.fn else None, self.cls, n, cands[0], 0 if cands[0].is_static else 1))


class Every(object):
    def __contains__(self, x):
        return True


def binding(n, f, skip):
    """callee parameter -> argument expression, and whether everything is explicit"""
    pos = f.pos[skip:]
    out = {}
    full = True
    for k, a in enumerate(n.args):
        if isinstance(a, ast.Starred):
            full = False
            break
        if k < len(pos):
            out[pos[k]] = a
    for k in n.keywords:
        if k.arg is None:
            full = False
        else:
            out[k.arg] = k.value
    return out, full


def handover(p, rep):
    ext = External()
    for m in p.modules.values():
        if m.lang != "py":
            continue
        v = Calls(p, m, ext)
        v.visit(m.tree)
        bycaller = {}
        for fn, cls, n, f, skip in v.calls:
            if fn is None:
                continue
            qual = "%s.%s" % ((cls.qual if cls else m.name), fn.name)
            where = "%s:%d" % (m.rel, n.lineno)
            b, full = binding(n, f, skip)
            a = fn.args
            ps = {x.arg for x in a.args + a.kwonlyargs}
            if cls is not None and a.args:
                ps.discard(a.args[0].arg)
            names = set(f.pos[skip:]) | set(f.kwonly)
            for slot, e in b.items():
                if isinstance(e, ast.Name) and e.id in ps and e.id != slot and e.id in names and slot in ps:
                    other = b.get(e.id)
                    if other is None and full or isinstance(other, ast.Name) and other.id == slot:
                        rep.bad("crossed", "%s -> %s %s" % (qual, f.qual, slot), "the option %s is handed over as %s of %s" % (
                            e.id, slot, f.qual), where)
            for slot in sorted(names & ps & set(f.defaults)):
                e = b.get(slot)
                if isinstance(e, ast.Name) and e.id == slot:
                    rep.ok("%s: option %s handed to %s" % (qual, slot, f.qual), where)
                elif full and f.name not in ("__init__", "__cinit__") and not tested(fn, slot) and not rebound(fn, slot) and \
                        (e is None or isinstance(e, ast.Constant)):
                    rep.bad("not-handed", "%s -> %s %s" % (qual, f.qual, slot),
                            "the option %s is not handed to %s, which %s" % (
                                slot, f.qual, "uses its default" if e is None else "gets %s" % e.value), where)
            swallowed(p, rep, qual, n, f, skip, where, b)
            bycaller.setdefault((qual, f.qual), []).append((n, b, full, where, ps, f, skip, fn))
        for (qual, fq), sites in bycaller.items():
            omitted(rep, qual, fq, sites)


def swallowed(p, rep, qual, n, f, skip, where, b):
    if not f.kwarg:
        return
    acc = consumed(p, f)
    if acc is None:
        return
    for k in n.keywords:
        if k.arg is None or k.arg in f.pos or k.arg in f.kwonly:
            continue
        if k.arg in acc:
            rep.ok("%s: keyword %s of %s is consumed" % (qual, k.arg, f.qual), where)
        else:
            rep.bad("swallowed", "%s -> %s %s" % (qual, f.qual, k.arg), "%s accepts the keyword %s but ignores it" % (f.qual, k.arg),
                    where)


def consumed(p, f, depth=0):
    """keyword names a function takes out of its **kwargs; None when they escape"""
    if depth > 4:
        return None
    kw = f.kwarg
    out = set()
    parents = {}
    for n in ast.walk(f.node):
        for ch in ast.iter_child_nodes(n):
            parents[ch] = n
    ext = None
    for n in ast.walk(f.node):
        if not (isinstance(n, ast.Name) and n.id == kw and isinstance(n.ctx, ast.Load)):
            continue
        q = parents.get(n)
        if isinstance(q, ast.Attribute) and q.attr in ("get", "pop", "setdefault"):
            call = parents.get(q)
            if isinstance(call, ast.Call) and call.args and isinstance(call.args[0], ast.Constant):
                out.add(call.args[0].value)
                continue
            return None
        if isinstance(q, ast.Subscript) and isinstance(q.slice, ast.Constant):
            out.add(q.slice.value)
            continue
        if isinstance(q, ast.Compare) and isinstance(q.left, ast.Constant) and q.comparators and q.comparators[0] is n:
            continue
        if isinstance(q, ast.keyword) and q.arg is None:
            call = parents.get(q)
            g = target(p, f, call)
            if g is None:
                return None
            names = set(g.pos) | set(g.kwonly)
            out |= names
            if g.kwarg:
                sub = consumed(p, g, depth + 1)
                if sub is None:
                    return None
                out |= sub
            continue
        return None
    return out


def target(p, f, call):
    if not isinstance(call, ast.Call):
        return None
    e = call.func
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and \
            e.value.func.id == "super" and f.cls is not None:
        g = f.cls.lookup(e.attr, after=f.cls)
        # cooperative classes: any class after this one in a subclass's order may be meant
        return g
    if isinstance(e, ast.Name):
        r = p.resolve(f.module, e.id)
        if isinstance(r, FuncInfo):
            return r
        if isinstance(r, ClassInfo):
            return r.lookup("__init__")
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and f.pos and e.value.id == f.pos[0] and f.cls:
        return f.cls.lookup(e.attr)
    return None


def omitted(rep, qual, fq, sites):
    """an option handed over at one call and left to its default at another call of the same operation"""
    if len(sites) < 2:
        return
    for n, b, full, where, ps, f, skip, fn in sites:
        if not full:
            return
    for slot in {s for site in sites for s, e in site[1].items() if isinstance(e, ast.Name) and e.id in site[4] and e.id == s}:
        if slot not in sites[0][5].defaults:
            continue
        fn = sites[0][7]
        if any(isinstance(x, ast.Name) and x.id == slot and isinstance(x.ctx, ast.Store) for x in ast.walk(fn)):
            continue
        missing = [s for s in sites if slot not in s[1]]
        if missing and not tested(fn, slot):
            rep.bad("omitted", "%s -> %s %s" % (qual, fq, slot),
                    "the option %s is handed to %s at one call but not at this one" % (slot, fq), missing[0][3])
        elif not missing:
            rep.ok("%s: %s handed to %s at every call" % (qual, slot, fq), sites[0][3])


def tested(fn, name):
    """the option itself decides between branches"""
    for n in ast.walk(fn):
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.test)):
                return True
    return False


# ------------------------------------------------------------------ documentation

ITEM = re.compile(r"^\s*(\*{0,2}[A-Za-z_][A-Za-z0-9_]*(?:\s*,\s*[A-Za-z_][A-Za-z0-9_]*)*)\s*:\s")


def documented(doc):
    """names in the Parameters section of a docstring"""
    lines = doc.expandtabs().split("\n")
    out = []
    inside, indent = False, None
    k = 0
    while k < len(lines):
        s = lines[k]
        if k + 1 < len(lines) and re.match(r"^\s*-{4,}\s*$", lines[k + 1]):
            inside = s.strip().lower() in ("parameters", "arguments", "options")
            indent = len(s) - len(s.lstrip())
            k += 2
            continue
        if inside and s.strip():
            if len(s) - len(s.lstrip()) == indent:
                mt = ITEM.match(s)
                if mt:
                    out += [x.strip() for x in mt.group(1).split(",")]
        k += 1
    return out


def docs(p, rep):
    for f, c in functions(p):
        if f.module.lang != "py" or not public(f, c):
            continue
        doc = ast.get_docstring(f.node, clean=True)
        if f.name == "__init__" and c is not None and not doc:
            doc = ast.get_docstring(c.node, clean=True)
        if not doc:
            continue
        ps = set(f.pos) | set(f.kwonly) | {f.vararg, f.kwarg}
        acc = consumed(p, f) if f.kwarg else set()
        for x in documented(doc):
            y = x.lstrip("*")
            if y in ps or acc is None or y in acc or f.vararg:
                rep.ok("%s: documented option %s exists" % (f.qual, y), f.where)
            else:
                rep.notes.append("%s: the docstring names an option %s that the signature does not have" % (f.qual, y))


def check(p=None):
    p = Program()
    rep = Report("C21", RULE)
    rep.assumptions += ["a parameter that reaches an external call or a value is taken to have an effect there"]
    for m in p.modules.values():
        prune(m.tree)
    liveness(p, rep)
    handover(p, rep)
    docs(p, rep)
    return rep
