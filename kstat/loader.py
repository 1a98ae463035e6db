"""Program database: parses every module of the package under analysis and
resolves names, imports, classes and method resolution orders."""
import ast
import os

REPO = os.environ.get("KSTAT_REPO", "/repo")
SKIP = ("karta/examples.py",)


class FuncInfo(object):
    def __init__(self, module, cls, node, outer=None):
        self.module = module
        self.cls = cls
        self.node = node
        self.name = node.name
        self.outer = outer
        self.qual = ".".join(filter(None, [module.name, cls.name if cls else None, node.name]))
        decs = []
        for d in node.decorator_list:
            decs.append(ast.unparse(d))
        self.decorators = decs
        self.is_property = "property" in decs
        self.is_setter = any(d.endswith(".setter") for d in decs)
        self.is_static = "staticmethod" in decs
        self.is_classmethod = "classmethod" in decs
        a = node.args
        self.pos = [x.arg for x in getattr(a, "posonlyargs", []) + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = {}
        for n, d in zip(self.pos[len(self.pos) - len(a.defaults):], a.defaults):
            self.defaults[n] = d
        for n, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[n] = d
        self.is_generator = _has_yield(node)

    @property
    def where(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)

    def __repr__(self):
        return "<%s>" % self.qual


def _has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo(object):
    def __init__(self, module, node):
        self.module = module
        self.node = node
        self.name = node.name
        self.qual = module.name + "." + node.name
        self.methods = {}
        self.setters = {}
        self.attrs = {}
        self.bases = []      # ClassInfo or str (external)
        self._mro = None

    def mro(self):
        if self._mro is None:
            seqs = [[self]] + [list(b.mro()) for b in self.bases if isinstance(b, ClassInfo)] \
                + [[b for b in self.bases if isinstance(b, ClassInfo)]]
            out = []
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    c = s[0]
                    if not any(c in r[1:] for r in seqs):
                        break
                else:
                    c = seqs[0][0]
                out.append(c)
                seqs = [[x for x in s if x is not c] for s in seqs]
                seqs = [s for s in seqs if s]
            self._mro = out
        return self._mro

    def lookup(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m
        for c in m:
            if name in c.methods:
                return c.methods[name]
        return None

    def lookup_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def has_external_base(self):
        return any(isinstance(b, str) and b != "object"
                   for c in self.mro() for b in c.bases)

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return "<class %s>" % self.qual


class Module(object):
    def __init__(self, name, rel, tree, is_pkg, lang="py"):
        self.name = name
        self.rel = rel
        self.tree = tree
        self.is_pkg = is_pkg
        self.lang = lang
        self.names = {}      # name -> ('import', dotted) | ('from', mod, name) | ClassInfo | FuncInfo | ('assign', expr, stmt)
        self.classes = {}
        self.funcs = {}


class Program(object):
    def __init__(self, repo=None, pyx=True):
        self.repo = repo or REPO
        self.modules = {}
        self.errors = []
        self._load(pyx)
        self._link()
        self._method_index()

    def _load(self, pyx):
        root = os.path.join(self.repo, "karta")
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.repo)
                if rel in SKIP:
                    continue
                if f.endswith(".py"):
                    name = rel[:-3].replace("/", ".")
                    is_pkg = name.endswith(".__init__")
                    if is_pkg:
                        name = name[:-9]
                    with open(path, encoding="utf-8") as fh:
                        src = fh.read()
                    tree = ast.parse(src, path)
                    self.add(name, rel, tree, is_pkg, "py")
                elif f.endswith(".pyx") and pyx:
                    from . import pyxfront
                    name = rel[:-4].replace("/", ".")
                    tree = pyxfront.load(path)
                    self.add(name, rel, tree, False, "pyx")

    def add(self, name, rel, tree, is_pkg, lang):
        m = Module(name, rel, tree, is_pkg, lang)
        self.modules[name] = m
        self._collect(m, tree.body)
        return m

    def _collect(self, m, body):
        for s in body:
            if isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        m.names[a.asname] = ("import", a.name)
                    else:
                        m.names[a.name.split(".")[0]] = ("import", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = self._from_base(m, s)
                for a in s.names:
                    m.names[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(s, ast.FunctionDef):
                f = FuncInfo(m, None, s)
                m.funcs[s.name] = f
                m.names[s.name] = f
            elif isinstance(s, ast.ClassDef):
                c = ClassInfo(m, s)
                for b in s.body:
                    if isinstance(b, ast.FunctionDef):
                        f = FuncInfo(m, c, b)
                        if f.is_setter:
                            c.setters[b.name] = f
                        else:
                            c.methods[b.name] = f
                    elif isinstance(b, ast.Assign):
                        for t in b.targets:
                            if isinstance(t, ast.Name):
                                c.attrs[t.id] = b.value
                m.classes[s.name] = c
                m.names[s.name] = c
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            m.names[n.id] = ("assign", s.value if isinstance(t, ast.Name) else None, s)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                m.names[s.target.id] = ("assign", s.value, s)
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                for fld in ("body", "handlers", "orelse", "finalbody"):
                    sub = getattr(s, fld, [])
                    if fld == "handlers":
                        for h in sub:
                            self._collect(m, h.body)
                    else:
                        self._collect(m, sub)

    def _from_base(self, m, s):
        if s.level == 0:
            return s.module or ""
        parts = m.name.split(".")
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)] if s.level > 1 else parts
        if s.module:
            parts = parts + s.module.split(".")
        return ".".join(parts)

    def _link(self):
        for m in self.modules.values():
            for c in m.classes.values():
                for b in c.node.bases:
                    r = self.resolve_expr(m, b)
                    c.bases.append(r if isinstance(r, ClassInfo) else ast.unparse(b))

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            return self.member(b, e.attr)
        return None

    def member(self, b, attr):
        if isinstance(b, Module):
            r = self.resolve(b, attr)
            if r is None and (b.name + "." + attr) in self.modules:
                return self.modules[b.name + "." + attr]
            return r
        if isinstance(b, tuple) and b[0] == "ext":
            full = b[1] + "." + attr
            return self.modules.get(full) or ("ext", full)
        return None

    def rebound(self, m, name):
        """whether a module-level table is assigned or changed more than once"""
        n = 0
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Load):
                n += 1
            elif isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == name \
                    and not isinstance(x.ctx, ast.Load):
                n += 2
            elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == name \
                    and x.attr in ("update", "pop", "setdefault", "clear", "popitem"):
                n += 2
        return n != 1

    def resolve(self, m, name, seen=()):
        """-> Module | ClassInfo | FuncInfo | ('ext', dotted) | ('assign', module, expr) | None"""
        if (m.name, name) in seen:
            return None
        r = m.names.get(name)
        if r is None:
            return None
        if isinstance(r, (ClassInfo, FuncInfo)):
            return r
        if r[0] == "import":
            return self.modules.get(r[1]) or ("ext", r[1])
        if r[0] == "from":
            base, n = r[1], r[2]
            full = (base + "." + n) if base else n
            if base in self.modules:
                got = self.resolve(self.modules[base], n, seen + ((m.name, name),))
                if got is not None:
                    return got
                if full in self.modules:
                    return self.modules[full]
                return ("ext", full)
            if full in self.modules:
                return self.modules[full]
            return ("ext", full)
        return ("assign", m, name)

    def attr_status(self, cls, name):
        """True: every instance has the attribute; False: no method of the class
        assigns it; None: unknown."""
        key = (cls.qual, name)
        cache = self.__dict__.setdefault("_attr_status", {})
        if key not in cache:
            assigned = False
            definite = False
            for c in cls.mro():
                for f in c.methods.values():
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                            assigned = True
                        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                            assigned = True
                        elif isinstance(n, ast.Attribute) and n.attr == "__dict__":
                            assigned = True
                init = c.methods.get("__init__")
                if init is not None and init.pos and _definitely_sets(init.node.body, init.pos[0], name) and \
                        self._init_reaches(cls, c):
                    definite = True
            cache[key] = True if definite else (None if assigned else False)
        return cache[key]

    def _init_reaches(self, cls, c):
        """Whether cls's __init__ reaches c.__init__ through super() calls."""
        cur = cls.lookup("__init__")
        while cur is not None:
            if cur.cls is c:
                return True
            sup = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__init__"
                      and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name)
                      and n.func.value.func.id == "super" for n in ast.walk(cur.node))
            cur = cls.lookup("__init__", after=cur.cls) if sup else None
        return False

    def _method_index(self):
        self.by_method = {}
        for m in self.modules.values():
            for c in m.classes.values():
                for n, f in c.methods.items():
                    self.by_method.setdefault(n, []).append(f)

    def cls(self, qual):
        m, n = qual.rsplit(".", 1)
        if m not in self.modules:
            return None
        r = self.resolve(self.modules[m], n)
        return r if isinstance(r, ClassInfo) else None

    def func(self, qual):
        m, n = qual.rsplit(".", 1)
        if m in self.modules:
            r = self.resolve(self.modules[m], n)
            return r if isinstance(r, FuncInfo) else None
        c = self.cls(m)
        return c.lookup(n) if c else None

    def all_classes(self):
        for m in self.modules.values():
            for c in m.classes.values():
                yield c

    def all_funcs(self):
        for m in self.modules.values():
            for f in m.funcs.values():
                yield f
            for c in m.classes.values():
                for f in list(c.methods.values()) + list(c.setters.values()):
                    yield f


def _definitely_sets(body, selfname, attr):
    for s in body:
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                for n in ast.walk(t):
                    if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.value, ast.Name) \
                            and n.value.id == selfname:
                        return True
        elif isinstance(s, ast.If):
            b = _definitely_sets(s.body, selfname, attr) or _ends_raise(s.body)
            o = bool(s.orelse) and (_definitely_sets(s.orelse, selfname, attr) or _ends_raise(s.orelse))
            if b and o:
                return True
        elif isinstance(s, ast.Return):
            return False
    return False


def _ends_raise(body):
    return bool(body) and isinstance(body[-1], ast.Raise)


def probe(module, src, cls=None):
    """A function written in terms of the code under analysis (not part of it), so that compositions of its
    operations can be interpreted symbolically; it is neither registered nor executed."""
    node = ast.parse(src).body[0]
    return FuncInfo(module, cls, node)
