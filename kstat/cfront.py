"""C headers as compact syntax trees (parsed by clang, nothing is compiled or run)."""
import json
import os
import subprocess
import tempfile

COMPILERS = ("clang", "clang-18")
SIZES = {"char": 1, "signed char": 1, "unsigned char": 1, "short": 2, "int": 4, "unsigned int": 4, "long": 8,
         "unsigned long": 8, "size_t": 8, "long long": 8, "float": 4, "double": 8, "_Bool": 1, "void": 1,
         "unsigned short": 2, "unsigned long long": 8}


class FrontEndError(Exception):
    pass


class Node(object):
    __slots__ = ("kind", "line", "type", "kids", "name", "op", "value", "ref", "arrow", "extra")

    def __init__(self, kind, line):
        self.kind, self.line = kind, line
        self.type = self.name = self.op = self.value = self.ref = self.arrow = self.extra = None
        self.kids = []


class Header(object):
    def __init__(self, path, rel):
        self.path, self.rel = path, rel
        self.funcs = {}
        self.records = {}
        self.recname = {}
        self.typedefs = {}
        self.enums = {}
        self.files = {}

    # -- types
    def clean(self, t):
        for w in ("const ", "volatile ", "restrict ", "static ", "extern "):
            t = t.replace(w, "")
        return t.replace(" *", "*").strip()

    def resolve(self, t):
        t = self.clean(t)
        n = 0
        while t in self.typedefs and n < 20:
            t, n = self.clean(self.typedefs[t]), n + 1
        return t

    def record(self, t):
        t = self.resolve(t)
        for p in ("struct ", "union "):
            if t.startswith(p):
                t = t[len(p):]
        return self.records.get(t)

    def size(self, t):
        t = self.resolve(t)
        if t.endswith("*"):
            return 8
        if t.endswith("]"):
            b, n = t[:t.index("[")], t[t.index("["):]
            k = 1
            for x in n.strip("[]").split("]["):
                k *= int(x)
            return self.size(b.strip()) * k
        if t in SIZES:
            return SIZES[t]
        if t.startswith("enum "):
            return 4
        r = self.record(t)
        if r is not None:
            return r["size"]
        if t in self.enums.get("#names", ()):
            return 4
        raise FrontEndError("size of " + t)

    def align(self, t):
        t = self.resolve(t)
        r = self.record(t) if not t.endswith("*") else None
        if r is not None:
            return r["align"]
        if t.endswith("]"):
            return self.align(t[:t.index("[")].strip())
        return min(8, self.size(t))


def load(path, rel):
    src = '#include "%s"\n' % os.path.abspath(path)
    err = ""
    for exe in COMPILERS:
        with tempfile.TemporaryDirectory() as d:
            f = os.path.join(d, "unit.c")
            with open(f, "w") as fh:
                fh.write(src)
            try:
                r = subprocess.run([exe, "-Xclang", "-ast-dump=json", "-fsyntax-only", "-w", f], capture_output=True, text=True)
            except FileNotFoundError:
                continue
        if r.returncode == 0:
            return build(json.loads(r.stdout), path, rel)
        err += r.stderr[-500:]
    raise FrontEndError("clang: " + err)


class Lines(object):
    def __init__(self):
        self.file, self.line = None, 0

    def loc(self, d):
        if not isinstance(d, dict):
            return None
        if "spellingLoc" in d or "expansionLoc" in d:
            self.loc(d.get("spellingLoc"))
            self.loc(d.get("expansionLoc"))
            return self.file, self.line
        if "file" in d:
            self.file = d["file"]
        if "line" in d:
            self.line = d["line"]
        return (self.file, self.line) if d else None


def build(tree, path, rel):
    h = Header(path, rel)
    ln = Lines()
    base = os.path.dirname(os.path.abspath(path))
    enumval = {}

    def expr(d):
        where = None
        for k in d:
            if k == "loc":
                where = ln.loc(d[k]) or where
            elif k == "range":
                b = ln.loc(d[k].get("begin"))
                where = where or b
                ln.loc(d[k].get("end"))
            elif k == "inner":
                break
        n = Node(d.get("kind", "Null"), where or (ln.file, ln.line))
        n.type = (d.get("type") or {}).get("desugaredQualType") or (d.get("type") or {}).get("qualType")
        n.name = d.get("name")
        n.op = d.get("opcode")
        n.value = d.get("value")
        n.arrow = d.get("isArrow")
        if "referencedDecl" in d:
            n.ref = (d["referencedDecl"].get("kind"), d["referencedDecl"].get("name"), d["referencedDecl"].get("id"))
        n.extra = {k: d[k] for k in ("isPostfix", "argType", "hasElse", "hasInit", "castKind", "id", "init") if k in d}
        n.kids = [expr(x) for x in d.get("inner", ()) if isinstance(x, dict)]
        return n

    def decl(d):
        k = d.get("kind")
        mark = ln.loc(d.get("loc"))
        if "range" in d:
            b = ln.loc(d["range"].get("begin"))
            ln.loc(d["range"].get("end"))
            mark = mark or b
        file = (mark or (ln.file, 0))[0]
        if k == "TypedefDecl":
            t = (d.get("type") or {}).get("desugaredQualType") or d["type"]["qualType"]
            own = [x for x in d.get("inner", ()) if x.get("ownedTagDecl")]
            if own:
                nm = own[0]["ownedTagDecl"].get("name") or "#" + own[0]["ownedTagDecl"]["id"]
                if own[0]["ownedTagDecl"].get("kind") == "EnumDecl":
                    t = "int"
                else:
                    t = "struct " + nm
            h.typedefs[d["name"]] = t
            for x in d.get("inner", ()):
                skip(x)
            return
        if k == "EnumDecl":
            h.enums.setdefault("#names", set()).add(d.get("name"))
            v = -1
            for x in d.get("inner", ()):
                skip(x)
                if x.get("kind") == "EnumConstantDecl":
                    v += 1
                    for y in x.get("inner", ()):
                        if "value" in y:
                            v = int(y["value"])
                    h.enums[x["name"]] = v
            return
        if k == "RecordDecl":
            nm = d.get("name") or "#" + d["id"]
            fields, off, al = {}, 0, 1
            union = d.get("tagUsed") == "union"
            for x in d.get("inner", ()):
                skip(x)
            try:
                for x in d.get("inner", ()):
                    if x.get("kind") == "FieldDecl":
                        t = x["type"].get("desugaredQualType") or x["type"]["qualType"]
                        a, s = h.align(t), h.size(t)
                        al = max(al, a)
                        if union:
                            fields[x["name"]] = (0, t)
                            off = max(off, s)
                        else:
                            off = (off + a - 1) // a * a
                            fields[x["name"]] = (off, t)
                            off += s
            except FrontEndError:
                return
            if fields:
                h.records[nm] = {"fields": fields, "size": (off + al - 1) // al * al, "align": al, "name": nm}
            return
        if k == "FunctionDecl":
            params, body = [], None
            for x in d.get("inner", ()):
                if x.get("kind") == "ParmVarDecl":
                    n = expr(x)
                    params.append((n.name, n.type, n.extra.get("id")))
                elif x.get("kind") == "CompoundStmt":
                    body = expr(x)
                else:
                    skip(x)
            if body is not None and file and os.path.abspath(file).startswith(base):
                h.funcs[d["name"]] = Func(d["name"], params, (d["type"]["qualType"].split("(")[0]).strip(), body, mark)
            return
        for x in d.get("inner", ()):
            skip(x)

    def skip(d):
        if not isinstance(d, dict):
            return
        for k in d:
            if k == "loc":
                ln.loc(d[k])
            elif k == "range":
                ln.loc(d[k].get("begin"))
                ln.loc(d[k].get("end"))
            elif k == "inner":
                for x in d[k]:
                    skip(x)

    for d in tree.get("inner", ()):
        decl(d)
    return h


class Func(object):
    def __init__(self, name, params, ret, body, mark):
        self.name, self.params, self.ret, self.body = name, params, ret, body
        self.file, self.line = mark or (None, 0)
