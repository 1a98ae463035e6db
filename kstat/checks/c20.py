"""C20: every name, attribute and call in the package resolves."""
import ast
import collections.abc
import json

from ..external import External, BUILTINS
from ..loader import Program, ClassInfo, FuncInfo, Module
from ..interp import Interp, Policy
from ..report import Report
from ..terms import T, walk

TECHNIQUE = "scope, member and signature resolution over the syntax trees of all modules"
RULE = ("Every name read in a function or module is bound in its scopes, its module, or the built-ins; every attribute of "
        "a module exists in it (package modules and installed external ones, the latter from their sources or stubs); "
        "every attribute read from self is a method, class attribute or instance attribute of the class or assigned "
        "somewhere in its hierarchy; an attribute read from any other object is defined by some class of the package "
        "or of the external packages it uses; every call of a function, class or method of the package passes "
        "arguments its signature accepts; imported and exported (__all__) names exist.")
OBJ = set(dir(object)) | {"__dict__", "__name__", "__slots__", "__qualname__", "__module__", "__func__", "__self__"}


# ------------------------------------------------------------------ scopes

class Scope(object):
    def __init__(self, parent, kind):
        self.parent = parent
        self.kind = kind
        self.names = set()
        self.globals = set()


def targets(node, out):
    for n in ast.walk(node):
        if isinstance(n, ast.Name):
            out.add(n.id)


def bind(body, sc):
    """names bound by the statements of a scope (not of nested scopes)"""
    stack = list(body)
    while stack:
        s = stack.pop()
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            sc.names.add(s.name)
            stack += s.decorator_list
            continue
        if isinstance(s, ast.Lambda):
            continue
        if isinstance(s, (ast.Global, ast.Nonlocal)):
            sc.globals |= set(s.names)
        elif isinstance(s, ast.Import):
            sc.names |= {(a.asname or a.name.split(".")[0]) for a in s.names}
        elif isinstance(s, ast.ImportFrom):
            sc.names |= {a.asname or a.name for a in s.names}
        elif isinstance(s, ast.ExceptHandler) and s.name:
            sc.names.add(s.name)
        elif isinstance(s, ast.Name) and isinstance(s.ctx, (ast.Store, ast.Del)):
            sc.names.add(s.id)
        elif isinstance(s, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # own scope; the first iterable is evaluated outside
            stack.append(s.generators[0].iter)
            for w in ast.walk(s):
                if isinstance(w, ast.NamedExpr):
                    sc.names.add(w.target.id)
            continue
        stack += list(ast.iter_child_nodes(s))


class Names(ast.NodeVisitor):
    """reports names that no scope binds"""
    def __init__(self, p, m, rep):
        self.p = p
        self.m = m
        self.rep = rep
        self.top = Scope(None, "module")
        bind(m.tree.body, self.top)
        self.top.names |= set(m.names)
        self.globals = set(self.top.names)
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Global,)):
                self.globals |= set(n.names)
        self.sc = self.top
        self.stack = [m.name]
        self.star = any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in ast.walk(m.tree))
        self.count = 0

    def found(self, name):
        s = self.sc
        first = True
        while s is not None:
            if s.kind == "module":
                return name in self.globals
            if name in s.globals:
                return name in self.globals or any(name in x.names for x in self.chain(s.parent))
            if name in s.names and (s.kind != "class" or first):
                return True
            if s.kind != "comp":
                first = False
            s = s.parent
        return False

    def chain(self, s):
        while s is not None:
            yield s
            s = s.parent

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.count += 1
            if not self.found(n.id) and n.id not in BUILTINS and not self.star:
                if self.m.lang == "pyx":
                    return
                if self.guarded(n.id):
                    return
                self.rep.bad("undefined-name", "%s %s" % (".".join(self.stack), n.id),
                             "the name %s is not defined" % n.id, "%s:%d" % (self.m.rel, n.lineno))

    def guarded(self, name):
        return name in self.trying

    trying = ()

    def visit_Try(self, n):
        names = [h.type for h in n.handlers]
        catches = any(t is None or (isinstance(t, ast.Name) and t.id in ("NameError", "Exception", "BaseException")) or
                      isinstance(t, ast.Tuple) and any(isinstance(x, ast.Name) and x.id in ("NameError", "Exception")
                                                       for x in t.elts) for t in names)
        old = self.trying
        if catches:
            self.trying = Everything()
        for s in n.body:
            self.visit(s)
        self.trying = old
        for h in n.handlers:
            self.visit(h)
        for s in n.orelse + n.finalbody:
            self.visit(s)

    def function(self, n, name):
        a = n.args
        for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
            self.visit(d)
        for d in getattr(n, "decorator_list", []):
            self.visit(d)
        sc = Scope(self.sc, "function")
        for x in getattr(a, "posonlyargs", []) + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            sc.names.add(x.arg)
        body = n.body if isinstance(n.body, list) else [n.body]
        bind(body, sc)
        sc.names -= sc.globals
        self.sc, old = sc, self.sc
        self.stack.append(name)
        for s in body:
            self.visit(s)
        self.stack.pop()
        self.sc = old

    def visit_FunctionDef(self, n):
        self.function(n, n.name)

    def visit_Lambda(self, n):
        self.function(n, "<lambda>")

    def visit_ClassDef(self, n):
        for d in n.bases + n.decorator_list + [k.value for k in n.keywords]:
            self.visit(d)
        sc = Scope(self.sc, "class")
        bind(n.body, sc)
        self.sc, old = sc, self.sc
        self.stack.append(n.name)
        for s in n.body:
            self.visit(s)
        self.stack.pop()
        self.sc = old

    def comp(self, n, elts):
        self.visit(n.generators[0].iter)
        sc = Scope(self.sc, "comp")
        for g in n.generators:
            targets(g.target, sc.names)
        self.sc, old = sc, self.sc
        for k, g in enumerate(n.generators):
            if k:
                self.visit(g.iter)
            for c in g.ifs:
                self.visit(c)
        for e in elts:
            self.visit(e)
        self.sc = old

    def visit_ListComp(self, n):
        self.comp(n, [n.elt])

    visit_SetComp = visit_GeneratorExp = visit_ListComp

    def visit_DictComp(self, n):
        self.comp(n, [n.key, n.value])


class Everything(object):
    def __contains__(self, x):
        return True


# ------------------------------------------------------------------ members and calls

class Uses(ast.NodeVisitor):
    def __init__(self, p, m, ext, rep, universe, outer_methods):
        self.p = p
        self.m = m
        self.ext = ext
        self.rep = rep
        self.universe = universe
        self.foreign = outer_methods
        self.cls = None
        self.fn = []
        self.locals = [set()]
        self.types = [{}]
        self.attr_guard = 0
        self.hasattrs = set()

    def where(self, n):
        return "%s:%d" % (self.m.rel, n.lineno)

    def name(self):
        return ".".join([self.m.name] + ([self.cls.name] if self.cls else []) + [f.name for f in self.fn])

    # -- resolution of expressions
    def shadowed(self, name):
        return any(name in s for s in self.locals)

    def static(self, e):
        """Module | ClassInfo | FuncInfo | ('ext', dotted) | ('inst', ClassInfo) | None"""
        if isinstance(e, ast.Name):
            for t, s in zip(reversed(self.types), reversed(self.locals)):
                if e.id in t:
                    return t[e.id]
                if e.id in s:
                    return None
            r = self.p.resolve(self.m, e.id)
            if isinstance(r, tuple) and r[0] == "assign":
                return None
            return r
        if isinstance(e, ast.Attribute):
            b = self.static(e.value)
            if isinstance(b, Module) or (isinstance(b, tuple) and b[0] == "ext"):
                r = self.p.member(b, e.attr)
                return None if isinstance(r, tuple) and r[0] == "assign" else r
            return None
        if isinstance(e, ast.Call):
            f = self.static(e.func)
            if isinstance(f, ClassInfo) and plain(f):
                return ("inst", f)
            if isinstance(e.func, ast.Name) and e.func.id == "super" and self.cls is not None:
                return ("super", self.cls)
        return None

    # -- statements
    def visit_FunctionDef(self, n):
        for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)
        sc = Scope(None, "function")
        a = n.args
        params = [x.arg for x in getattr(a, "posonlyargs", []) + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]]
        sc.names |= set(params)
        bind(n.body, sc)
        ty = {}
        method = self.cls is not None and not self.fn
        static = any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in n.decorator_list)
        if method and not static and params and not rebound(n, params[0]):
            ty[params[0]] = ("inst", self.cls)
        for k, t in self.local_types(n).items():
            ty.setdefault(k, t)
        self.locals.append(sc.names - sc.globals)
        self.types.append(ty)
        self.fn.append(n)
        old = self.hasattrs
        self.hasattrs = old | {x.args[1].value for x in ast.walk(n) if isinstance(x, ast.Call) and
                               isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") and
                               len(x.args) > 1 and isinstance(x.args[1], ast.Constant)}
        for s in n.body:
            self.visit(s)
        self.hasattrs = old
        self.fn.pop()
        self.types.pop()
        self.locals.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def local_types(self, fn):
        """locals that are only ever assigned instances of one class of the package"""
        seen = {}
        for n in own(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                    isinstance(n.value, ast.Call):
                c = self.static(n.value.func) if not isinstance(n.value.func, ast.Name) or \
                    not bound_in(fn, n.value.func.id) else None
                seen.setdefault(n.targets[0].id, []).append(c)
        out = {}
        for k, cs in seen.items():
            if len(cs) == stores(fn, k) and all(isinstance(c, ClassInfo) and c is cs[0] and plain(c) for c in cs):
                out[k] = ("inst", cs[0])
        return out

    def visit_Lambda(self, n):
        names = {x.arg for x in n.args.args + n.args.kwonlyargs + [y for y in (n.args.vararg, n.args.kwarg) if y]}
        self.locals.append(names)
        self.types.append({})
        self.visit(n.body)
        for d in n.args.defaults:
            self.visit(d)
        self.types.pop()
        self.locals.pop()

    def comp(self, n):
        names = set()
        for g in n.generators:
            targets(g.target, names)
        self.locals.append(names)
        self.types.append({})
        self.generic_visit(n)
        self.types.pop()
        self.locals.pop()

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = comp

    def visit_ClassDef(self, n):
        if self.fn:
            return                  # local classes: names only
        c = self.m.classes.get(n.name)
        old, self.cls = self.cls, c if c is not None and c.node is n else None
        self.locals.append(set())
        self.types.append({})
        for s in n.body:
            self.visit(s)
        self.types.pop()
        self.locals.pop()
        self.cls = old

    def visit_Try(self, n):
        def names(t):
            if t is None:
                return ["Exception"]
            if isinstance(t, ast.Tuple):
                return [x for e in t.elts for x in names(e)]
            return [t.id] if isinstance(t, ast.Name) else []
        hs = {x for h in n.handlers for x in names(h.type)}
        g = bool(hs & {"AttributeError", "Exception", "BaseException"})
        t = bool(hs & {"TypeError", "Exception", "BaseException"})
        self.attr_guard += g
        self.type_guard += t
        for s in n.body:
            self.visit(s)
        self.attr_guard -= g
        self.type_guard -= t
        for h in n.handlers:
            self.visit(h)
        for s in n.orelse + n.finalbody:
            self.visit(s)

    type_guard = 0

    def visit_Import(self, n):
        pass

    def visit_ImportFrom(self, n):
        base = self.p._from_base(self.m, n)
        for a in n.names:
            if a.name == "*":
                continue
            self.imported(base, a.name, n)

    def imported(self, base, name, n):
        if base in self.p.modules:
            m = self.p.modules[base]
            if name in m.names or base + "." + name in self.p.modules or binds(m, name):
                self.rep.ok("import %s from %s" % (name, base), self.where(n))
            elif m.lang == "py":
                if not self.attr_guard and not self.import_guard(n):
                    self.rep.bad("import", "%s: from %s import %s" % (self.m.name, base, name),
                                 "%s does not define %s" % (base, name), self.where(n))
        elif base.split(".")[0] == "karta" and base not in self.p.modules and self.m.lang == "py":
            pk = ".".join(base.split("."))
            if not any(x.startswith(pk + ".") for x in self.p.modules):
                self.rep.bad("import", "%s: from %s import %s" % (self.m.name, base, name),
                             "there is no module %s" % base, self.where(n))
        elif base:
            mem = self.ext.members(base)
            if mem is not None and name not in mem and self.ext.find(base + "." + name) is None and self.m.lang == "py" \
                    and not self.import_guard(n):
                self.rep.bad("import", "%s: from %s import %s" % (self.m.name, base, name),
                             "%s does not define %s" % (base, name), self.where(n))

    def import_guard(self, n):
        for t in ast.walk(self.m.tree):
            if isinstance(t, ast.Try) and any(n is x for s in t.body for x in ast.walk(s)):
                return True
        return False

    # -- attributes
    def visit_Attribute(self, n):
        self.visit(n.value)
        if not isinstance(n.ctx, ast.Load):
            return
        b = self.static(n.value)
        if isinstance(b, Module):
            if b.lang == "py" or self.m.lang == "py":
                if n.attr in b.names or b.name + "." + n.attr in self.p.modules or binds(b, n.attr) or \
                        n.attr.startswith("__"):
                    self.rep.ok("%s.%s" % (b.name, n.attr), self.where(n))
                elif not self.attr_guard and not star(b) and n.attr not in self.hasattrs:
                    self.rep.bad("module-attribute", "%s %s.%s" % (self.name(), b.name, n.attr),
                                 "module %s has no attribute %s" % (b.name, n.attr), self.where(n))
            return
        if isinstance(b, tuple) and b[0] == "ext" and self.m.lang == "py":
            mem = self.ext.members(b[1]) if self.is_module(n.value) else None
            if mem is not None:
                if n.attr in mem:
                    self.rep.ok("%s.%s" % (b[1], n.attr), self.where(n))
                elif not self.attr_guard and n.attr not in self.hasattrs:
                    self.rep.bad("external-attribute", "%s %s.%s" % (self.name(), b[1], n.attr),
                                 "the installed module %s has no attribute %s" % (b[1], n.attr), self.where(n))
            return
        if isinstance(b, tuple) and b[0] == "inst":
            c = b[1]
            if not complete(c):
                self.anywhere(n)
                return
            if has_attr(self.p, c, n.attr, isinstance(n.value, ast.Name) and self.cls is c):
                self.rep.ok("%s: attribute %s of %s" % (self.name(), n.attr, c.name), self.where(n))
            elif not self.attr_guard and n.attr not in self.hasattrs:
                self.rep.bad("attribute", "%s %s.%s" % (self.name(), c.name, n.attr),
                             "%s has no attribute or method %s" % (c.name, n.attr), self.where(n))
            return
        if isinstance(b, tuple) and b[0] == "super":
            c = b[1]
            if complete(c) and not c.has_external_base() and not any(n.attr in x.methods or n.attr in x.attrs for x in c.mro()[1:]) and n.attr not in OBJ:
                self.rep.bad("attribute", "%s super().%s" % (self.name(), n.attr),
                             "no base class of %s has %s" % (c.name, n.attr), self.where(n))
            return
        if isinstance(b, ClassInfo):
            if complete(b) and not has_attr(self.p, b, n.attr, False) and not self.attr_guard and n.attr not in self.hasattrs:
                self.rep.bad("attribute", "%s %s.%s" % (self.name(), b.name, n.attr),
                             "class %s has no attribute %s" % (b.name, n.attr), self.where(n))
            return
        self.anywhere(n)

    def is_module(self, e):
        """the expression denotes a module (imported as such)"""
        if isinstance(e, ast.Name):
            r = self.m.names.get(e.id)
            if isinstance(r, tuple) and r[0] == "import":
                return True
            if isinstance(r, tuple) and r[0] == "from":
                mem = self.ext.find(r[1] + "." + r[2])
                return mem is not None
            return False
        if isinstance(e, ast.Attribute):
            b = self.static(e)
            return isinstance(b, tuple) and b[0] == "ext" and self.ext.find(b[1]) is not None and \
                self.ext.members(".".join(b[1].split(".")[:-1])) is not None
        return False

    def anywhere(self, n):
        if self.m.lang != "py":
            return
        if n.attr in self.universe:
            return
        if self.attr_guard or n.attr in self.hasattrs:
            return
        self.rep.bad("unknown-attribute", "%s .%s" % (self.name(), n.attr),
                     "no class of the package or of a package it uses has an attribute %s" % n.attr, self.where(n))

    # -- calls
    def visit_Call(self, n):
        self.generic_visit(n)
        if self.m.lang != "py":
            return
        f = self.static(n.func)
        if isinstance(f, FuncInfo):
            self.accepts(n, f, 0)
        elif isinstance(f, ClassInfo):
            init = f.lookup("__init__") or f.lookup("__cinit__")
            if f.has_external_base() and init is None:
                return
            if init is not None and complete(f):
                self.accepts(n, init, 1)
            elif init is None and complete(f) and f.lookup("__new__") is None and (n.args or n.keywords) and not f.bases and \
                    f.module.lang == "py":
                self.rep.bad("arguments", "%s %s()" % (self.name(), f.name), "%s takes no arguments" % f.name, self.where(n))
        elif isinstance(n.func, ast.Attribute):
            b = self.static(n.func.value)
            if isinstance(b, tuple) and b[0] in ("inst", "super"):
                c = b[1]
                g = c.lookup(n.func.attr) if b[0] == "inst" else c.lookup(n.func.attr, after=c)
                if g is not None and not g.is_property and not instance_attr(c, n.func.attr):
                    subs = [x for x in all_classes(self.p) if x is not c and c in x.mro() and n.func.attr in x.methods] \
                        if b[0] == "inst" else []
                    if not subs or isinstance(n.func.value, ast.Call):
                        self.accepts(n, g, 0 if g.is_static else 1)
                    elif all(self.mismatch(n, x, 0 if x.is_static else 1) for x in [g] + [s.methods[n.func.attr] for s in subs]):
                        self.accepts(n, g, 0 if g.is_static else 1)
            elif isinstance(b, ClassInfo):
                g = b.lookup(n.func.attr)
                if g is not None and not g.is_property:
                    self.accepts(n, g, 1 if g.is_classmethod else 0)
            elif b is None:
                self.duck(n)

    def duck(self, n):
        """a method call on an object of unknown class: some definition must accept it"""
        name = n.func.attr
        cands = self.p.by_method.get(name)
        if not cands or name in self.foreign or any(instance_attr(c, name) for c in all_classes(self.p)):
            return
        if any(f.is_property or passes(self.p, f) is None for f in cands):
            return
        bad = [self.mismatch(n, f, 0 if f.is_static else 1) for f in cands]
        if all(bad) and not self.type_guard:
            self.rep.bad("arguments", "%s .%s()" % (self.name(), name),
                         "no method %s accepts the call: %s" % (name, bad[0]), self.where(n))
        elif not all(bad):
            self.rep.ok("%s: a method %s accepts the arguments" % (self.name(), name), self.where(n))

    def accepts(self, n, f, skip):
        if passes(self.p, f) is None:
            return
        if f.module.lang != "py" and not f.pos:
            return
        why = self.mismatch(n, f, skip)
        if why is None:
            self.rep.ok("%s: arguments of %s" % (self.name(), f.qual), self.where(n))
        elif not self.type_guard:
            self.rep.bad("arguments", "%s %s()" % (self.name(), f.qual.split(".", 1)[-1]),
                         "%s cannot be called so: %s" % (f.qual, why), self.where(n))

    def mismatch(self, n, f, skip):
        pos = f.pos[skip:]
        star = any(isinstance(a, ast.Starred) for a in n.args)
        dstar = any(k.arg is None for k in n.keywords)
        npos = len([a for a in n.args if not isinstance(a, ast.Starred)])
        if npos > len(pos) and not f.vararg:
            return "%d positional arguments for %d parameters" % (npos, len(pos))
        given = set(pos[:npos])
        for k in n.keywords:
            if k.arg is None:
                continue
            if k.arg not in pos and k.arg not in f.kwonly:
                if not f.kwarg:
                    return "unexpected keyword %s" % k.arg
            elif k.arg in given:
                return "multiple values for %s" % k.arg
            given.add(k.arg)
        if not star and not dstar:
            miss = [x for x in pos + f.kwonly if x not in given and x not in f.defaults]
            if miss:
                return "missing argument %s" % ", ".join(miss)
        return None


def own(fn):
    """nodes of a function without nested functions"""
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            stack += list(ast.iter_child_nodes(n))


def stores(fn, name):
    k = sum(1 for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)))
    k += sum(1 for x in fn.args.args + fn.args.kwonlyargs if x.arg == name)
    k += sum(1 for n in ast.walk(fn) if isinstance(n, ast.ExceptHandler) and n.name == name)
    return k


def rebound(fn, name):
    return any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del)) for n in ast.walk(fn))


def bound_in(fn, name):
    return stores(fn, name) > 0


def binds(m, name):
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global) and name in n.names:
            return True
    return False


def star(m):
    return any(isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names) for n in m.tree.body)


def plain(c):
    """constructing the class surely gives an instance of it"""
    return complete(c) and c.lookup("__new__") is None and not c.node.decorator_list


EXTERNAL_BASES = {"Exception": dir(Exception), "ValueError": dir(ValueError), "RuntimeError": dir(RuntimeError),
                  "TypeError": dir(TypeError), "KeyError": dir(KeyError), "dict": dir(dict), "list": dir(list),
                  "Sequence": dir(collections.abc.Sequence), "Mapping": dir(collections.abc.Mapping),
                  "json.JSONEncoder": dir(json.JSONEncoder) + ["skipkeys", "ensure_ascii", "check_circular", "allow_nan",
                                                               "sort_keys", "indent"], "object": []}


def external_bases(c):
    return [b for x in c.mro() for b in x.bases if isinstance(b, str)]


def complete(c):
    return all(b in EXTERNAL_BASES for b in external_bases(c)) and not c.node.decorator_list and not c.node.keywords and \
        not any("__getattr__" in x.methods or "__getattribute__" in x.methods for x in c.mro()) and \
        not any(setattr_used(x) for x in c.mro())


def setattr_used(c):
    for f in c.methods.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                return True
            if isinstance(n, ast.Attribute) and n.attr == "__dict__":
                return True
    return False


_ALL = {}


def all_classes(p):
    if id(p) not in _ALL:
        _ALL.clear()
        _ALL[id(p)] = [c for m in p.modules.values() for c in m.classes.values()]
    return _ALL[id(p)]


_INST = {}


def instance_attr(c, name):
    """some method of the hierarchy assigns the attribute on its first parameter"""
    for x in c.mro():
        if x not in _INST:
            s = set()
            for f in list(x.methods.values()) + list(x.setters.values()):
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and \
                            isinstance(n.value, ast.Name) and f.pos and n.value.id == f.pos[0]:
                        s.add(n.attr)
            _INST[x] = s
        if name in _INST[x]:
            return True
    return False


def class_member(c, name):
    return any(name in x.methods or name in x.setters or name in x.attrs or slots(x, name) or body_binds(x, name)
               for x in c.mro())


def body_binds(c, name):
    sc = Scope(None, "class")
    bind(c.node.body, sc)
    return name in sc.names


def slots(c, name):
    return False


def has_attr(p, c, name, as_self):
    if name in OBJ or class_member(c, name) or instance_attr(c, name):
        return True
    if any(name in EXTERNAL_BASES.get(b, ()) for b in external_bases(c)):
        return True
    # assigned from outside, or provided by a subclass or a class mixed in with it
    if ("outside", name) in _outside(p):
        return True
    if as_self:
        return any(c in x.mro() and (class_member(x, name) or instance_attr(x, name)) for x in all_classes(p))
    return False


_OUT = {}


def _outside(p):
    if id(p) not in _OUT:
        _OUT.clear()
        s = set()
        for m in p.modules.values():
            for c in ast.walk(m.tree):
                if isinstance(c, ast.Attribute) and isinstance(c.ctx, ast.Store) and isinstance(c.value, ast.Name) and \
                        c.value.id not in ("self", "cls"):
                    s.add(("outside", c.attr))
        _OUT[id(p)] = s
    return _OUT[id(p)]


def passes(p, f):
    """None when decorators may change the signature"""
    for d in f.node.decorator_list:
        t = d.func if isinstance(d, ast.Call) else d
        if isinstance(t, ast.Name) and t.id in ("property", "staticmethod", "classmethod"):
            continue
        if isinstance(t, ast.Attribute) and t.attr in ("setter", "getter"):
            continue
        g = p.resolve_expr(f.module, t)
        if isinstance(g, FuncInfo):
            inner = [n for n in ast.walk(g.node) if isinstance(n, ast.FunctionDef) and n is not g.node]
            if inner and all(n.args.vararg and n.args.kwarg or len(n.args.args) == 1 and not n.args.vararg for n in inner) \
                    and any(n.args.vararg and n.args.kwarg for n in inner):
                continue
        return None
    return True


def prune(tree):
    """drop statements that follow an unconditional jump in their block"""
    for n in ast.walk(tree):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list):
                for k, s in enumerate(b):
                    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                        del b[k + 1:]
                        break


def exports(p, rep):
    for m in p.modules.values():
        for s in m.tree.body:
            if isinstance(s, (ast.Assign, ast.AugAssign)):
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                if any(isinstance(t, ast.Name) and t.id == "__all__" for t in ts):
                    for e in ast.walk(s.value):
                        if isinstance(e, ast.Constant) and isinstance(e.value, str):
                            n = e.value
                            if n in m.names or m.name + "." + n in p.modules or star(m):
                                rep.ok("%s exports %s" % (m.name, n), "%s:%d" % (m.rel, s.lineno))
                            else:
                                rep.bad("export", "%s %s" % (m.name, n), "__all__ names %s, which the module does not define" % n,
                                        "%s:%d" % (m.rel, s.lineno))


def universe(p, ext):
    pk = set()
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                pk |= {a.name.split(".")[0] for a in n.names}
            elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
                pk.add(n.module.split(".")[0])
    pk -= {"karta"}
    foreign = ext.attributes(pk | {"io", "collections", "re", "codecs", "tempfile"})
    names = set(foreign) | OBJ
    for m in p.modules.values():
        names |= set(m.names)
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                names.add(n.name)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                names.add(n.attr)
            elif isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) in ("setattr", "namedtuple", "type"):
                for x in ast.walk(n):
                    if isinstance(x, ast.Constant) and isinstance(x.value, str):
                        names |= set(x.value.replace(",", " ").split())
        for c in m.classes.values():
            names |= set(c.attrs)
    return names, foreign


class Flow(Policy):
    max_states = 600
    max_depth = 1

    def inline(self, i, f, recv, d):
        return False


def straight(fn, name):
    """the local is neither captured by a nested function nor assigned in loops only"""
    inloop = set()
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda)):
            if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n)):
                return False
        if isinstance(n, (ast.For, ast.While)):
            inloop |= {x for x in ast.walk(n) if isinstance(x, ast.Name)}
    st = [n for n in own(fn) if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store)]
    return any(x not in inloop for x in st)


def unbound(p, rep):
    """locals read on a path that never assigned them"""
    for m in p.modules.values():
        if m.lang != "py":
            continue
        fs = [(f, None) for f in m.funcs.values()]
        for c in m.classes.values():
            fs += [(f, c) for f in list(c.methods.values()) + list(c.setters.values())]
        for f, c in fs:
            try:
                paths = Interp(p, Flow()).run(f, c)
            except (RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError) as e:
                rep.undec("%s: unbound locals: %s" % (f.qual, type(e).__name__))
                continue
            seen = set()
            hit = False
            for pa in paths:
                ts = [pa.value] + [x for x, _ in pa.conds]
                for e in pa.events:
                    ts.append(e.term)
                    ts += list(e.extra or ())
                for x in ts:
                    if isinstance(x, T):
                        for t in walk(x, seen):
                            if t.op == "undef" and t.args and isinstance(t.args[0], str) and \
                                    t.args[0].isidentifier() and straight(f.node, t.args[0]):
                                hit = True
                                rep.bad("unbound-local", "%s %s" % (f.qual, t.args[0]),
                                        "the local %s can be read before it is assigned" % t.args[0], pa.where)
            if not hit:
                rep.ok("%s: no local is read before assignment on %d paths" % (f.qual, len(paths)), f.where)


def check(p=None):
    p = Program()
    rep = Report("C20", RULE)
    rep.assumptions += ["attributes of external objects are judged by name only",
                        "no attribute is added to modules or classes through reflection"]
    ext = External()
    names, foreign = universe(p, ext)
    for m in p.modules.values():
        prune(m.tree)
    for m in p.modules.values():
        v = Names(p, m, rep)
        for s in m.tree.body:
            v.visit(s)
        for f in m.funcs.values():
            rep.fn(f.qual)
        for c in m.classes.values():
            for f in c.methods.values():
                rep.fn(f.qual)
        rep.ok("%s: %d name reads resolved" % (m.name, v.count), m.rel)
        Uses(p, m, ext, rep, names, foreign).visit(m.tree)
    exports(p, rep)
    unbound(p, rep)
    return rep
