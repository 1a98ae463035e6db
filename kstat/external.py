"""Names that the installed external packages define (read from their sources, stubs and binaries; nothing is run)."""
import ast
import builtins
import glob
import importlib.util
import os
import re
import sysconfig

STDLIB = next((d for d in sorted(glob.glob("/usr/lib/pypy3.*"), reverse=True) if os.path.isdir(os.path.join(d, "xml"))),
              sysconfig.get_paths()["stdlib"])
BUILTIN_TYPES = (object, int, float, complex, str, bytes, bytearray, list, tuple, dict, set, frozenset, type, slice,
                 range, property, BaseException, OSError, SyntaxError, UnicodeDecodeError, StopIteration, memoryview)


def sites():
    return sorted(glob.glob("/opt/venv-pypy/lib/*/site-packages")) + \
        sorted(glob.glob("/usr/lib/python3*/dist-packages"))


def tree(path):
    try:
        with open(path, encoding="utf-8", errors="replace") as fh:
            return ast.parse(fh.read())
    except (OSError, SyntaxError, ValueError):
        return None


class External(object):
    def __init__(self):
        self._mod = {}
        self._attrs = {}

    def find(self, name):
        """source or stub file of a module, or (None) when it is not installed / binary"""
        parts = name.split(".")
        for base in sites() + [STDLIB]:
            p = os.path.join(base, *parts)
            for f in (os.path.join(p, "__init__.pyi"), os.path.join(p, "__init__.py"), p + ".pyi", p + ".py"):
                if os.path.exists(f):
                    return f
        return None

    def members(self, name):
        """names a module surely can have, or None when they cannot be listed"""
        if name in self._mod:
            return self._mod[name]
        self._mod[name] = None
        f = self.find(name)
        res = None
        if f is not None:
            t = tree(f)
            res = self.collect(t, name, f) if t is not None else None
        elif "." not in name and importlib.util.find_spec(name) is not None and \
                importlib.util.find_spec(name).origin in ("built-in", "frozen"):
            res = set(dir(__import__(name)))
        elif name in ("math", "cmath", "itertools", "operator", "time", "struct", "_collections", "zlib", "array"):
            res = set(dir(__import__(name)))
        if res is not None and f is not None:
            d = os.path.dirname(f)
            if os.path.basename(f).startswith("__init__"):
                for x in os.listdir(d):
                    res.add(x.split(".")[0])
            res |= {"__name__", "__file__", "__doc__", "__version__", "__path__", "__dict__", "__all__", "__package__"}
        self._mod[name] = res
        return res

    def collect(self, t, name, f):
        out = set()
        stack = list(t.body)
        while stack:
            s = stack.pop()
            if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                out.add(s.name)
                if s.name == "__getattr__":
                    return None
            elif isinstance(s, ast.Import):
                out |= {(a.asname or a.name).split(".")[0] for a in s.names}
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    if a.name == "*":
                        base = s.module or ""
                        if s.level:
                            pk = name.split(".")
                            if not os.path.basename(f).startswith("__init__"):
                                pk = pk[:-1]
                            pk = pk[:len(pk) - (s.level - 1)] if s.level > 1 else pk
                            base = ".".join(pk + ([s.module] if s.module else []))
                        sub = self.members(base)
                        if sub is None:
                            return None
                        out |= sub
                    else:
                        out.add(a.asname or a.name)
            elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.With)):
                for n in ast.walk(s):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        out.add(n.id)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("globals", "vars"):
                        return None
                if isinstance(s, (ast.For, ast.With)):
                    stack += s.body
            elif isinstance(s, ast.If):
                stack += s.body + s.orelse
            elif isinstance(s, ast.Try):
                stack += s.body + s.orelse + s.finalbody
                for h in s.handlers:
                    stack += h.body
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                if any(isinstance(n, ast.Name) and n.id in ("globals", "vars", "exec", "setattr") for n in ast.walk(s)):
                    return None
        return out

    def attributes(self, packages):
        """every attribute or method name some class of the packages defines"""
        out = set()
        for ty in BUILTIN_TYPES:
            out |= set(dir(ty))
        for pk in sorted(packages):
            if pk not in self._attrs:
                self._attrs[pk] = self.package_attrs(pk)
            out |= self._attrs[pk]
        return out

    def package_attrs(self, pk):
        out = set()
        files = []
        for base in sites() + [STDLIB]:
            p = os.path.join(base, pk)
            if os.path.isdir(p):
                for d, dirs, fs in os.walk(p):
                    dirs[:] = [x for x in dirs if x not in ("tests", "test", "__pycache__", "f2py", "distutils")]
                    files += [os.path.join(d, x) for x in fs]
                break
            if os.path.exists(p + ".py"):
                files.append(p + ".py")
                break
        stubs = any(x.endswith(".pyi") for x in files)
        for f in files:
            if f.endswith((".pyi", ".py")):
                t = tree(f)
                if t is None:
                    continue
                for n in ast.walk(t):
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                        out.add(n.name)
                    elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        out.add(n.attr)
                    elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        out.add(n.id)
            elif f.endswith(".so") and not stubs and os.path.getsize(f) < 3000000:
                with open(f, "rb") as fh:
                    for m in re.findall(rb"[A-Za-z_][A-Za-z0-9_]{2,40}", fh.read()):
                        out.add(m.decode())
            elif f.endswith(".pxd"):
                with open(f, encoding="utf-8", errors="replace") as fh:
                    out |= set(re.findall(r"[A-Za-z_][A-Za-z0-9_]*", fh.read()))
        return out


BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "unicode", "xrange", "long", "basestring",
                                 "raw_input", "reduce", "WindowsError"}
