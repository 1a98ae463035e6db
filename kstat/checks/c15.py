"""C15: GPX documents keep coordinates, properties and structure."""
import ast

from ..interp import Interp, Policy
from ..iospec import extname, cargs
from ..loader import Program
from ..report import Report
from ..terms import T, mk, const, is_const, cval, walk, fmt

TECHNIQUE = "symbolic document trees built from the event sequence of the writer, and path-wise record terms of readers and adders"
RULE = ("Writer: the tree built by as_string has, for every waypoint, track, segment, route and point, one element of GPX's "
        "name in the document's order, with lon and lat from the first and second coordinate, one child per property with "
        "its value, and one child of <extensions> per extension. Reader: each list is filled from the elements of that "
        "name, coordinates from lon and lat, properties from every child except structural ones, extensions from "
        "<extensions>. Adders: coordinates in order, each property sorted by GPX's property names, per-vertex data by the "
        "index of its vertex, elevations from the third coordinate. Geometry readers keep all of it in WGS84.")
MOD = "karta.vector._gpx"
NS = "{http://www.topografix.com/GPX/1/1}"
GPXNAMES = {"ele", "time", "magvar", "geoidheight", "name", "cmt", "desc", "src", "link", "sym", "type", "fix", "sat", "hdop",
            "vdop", "pdop", "ageofdgpsdata", "dgpsid"}
FIELDS = {"Point": ("lonlat", "properties", "extensions"), "Trkseg": ("trkpts", "properties", "extensions"),
          "Track": ("trksegs", "properties", "extensions"), "Route": ("rtepts", "properties", "extensions")}
PARTS = {"Track": ("trksegs", "trkseg", "Trkseg"), "Trkseg": ("trkpts", "trkpt", "Point"), "Route": ("rtepts", "rtept", "Point")}
STRUCT = {"Point": {"extensions"}, "Trkseg": {"extensions", "trkpt"}, "Track": {"extensions", "trkseg"},
          "Route": {"extensions", "rtept"}}


class Flow(Policy):
    max_depth = 8
    max_states = 8000

    def __init__(self, *mods):
        self.mods = mods or (MOD,)

    def inline(self, i, f, recv, d):
        return f.module.name in self.mods and f.name != "__init__"

    def call(self, it, fv, args, st):
        """every construction of an element is an element of its own"""
        name = extname(mk("call", fv, ()))
        if name and name.split(".")[-1] in ("Element", "SubElement") and not args[2]:
            self.made = getattr(self, "made", 0) + 1
            pos, kw, _ = args
            kw = kw.items() if isinstance(kw, dict) else kw
            return mk("call", fv, tuple(enumerate(pos)) + tuple(sorted(kw, key=lambda x: str(x[0]))) +
                      (("#", const(self.made)),))
        return None


class Ctx(object):
    def __init__(self, rep, p):
        self.rep, self.p = rep, p
        self.m = p.modules[MOD]
        self.fields = dict(FIELDS)
        for st in ast.walk(self.m.tree):
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and \
                    isinstance(st.value, ast.Call) and getattr(st.value.func, "attr", getattr(st.value.func, "id", "")) \
                    == "namedtuple" and len(st.value.args) > 1:
                try:
                    v = ast.literal_eval(st.value.args[1])
                    self.fields[st.targets[0].id] = tuple(v.replace(",", " ").split() if isinstance(v, str) else v)
                except ValueError:
                    pass

    def record(self, t):
        """(kind, {field: term}) of a constructed record"""
        if t.op in ("call", "new"):
            h = t.args[0]
            name = h.args[-1].split(".")[-1] if h.op in ("global", "class") and isinstance(h.args[-1], str) else None
            if name in self.fields:
                fs = self.fields[name]
                d = {}
                for k, v in t.args[1]:
                    if isinstance(k, int):
                        if k < len(fs):
                            d[fs[k]] = v
                    else:
                        d[k] = v
                return name, d
        return None, {}


def strip_order(it):
    """the iterable under enumerate, list, …; None when its order is changed"""
    while True:
        n = extname(it)
        if n in ("enumerate", "list", "tuple", "iter"):
            it = cargs(it)[0]
        elif n in ("reversed", "sorted", "set"):
            return None
        elif it.op == "item" and it.args[1].op == "slice":
            return None
        else:
            return it


def text_source(t):
    """value whose text is t"""
    while extname(t) in ("str", "repr", "float") and cargs(t):
        t = cargs(t)[0]
    if t.op == "mcall" and t.args[1] == "format" and is_const(t.args[0]) and len(t.args[2]) == 1 and \
            cval(t.args[0]).startswith("{") and cval(t.args[0]).endswith("}"):
        t = text_source(t.args[2][0][1])
    if t.op == "bin" and t.args[0] == "%" and is_const(t.args[1]) and cval(t.args[1]) in ("%s", "%r"):
        t = t.args[2]
        if t.op == "tuple" and len(t.args) == 1:
            t = t.args[0]
    return t


# ---------------------------------------------------------------- writer
class Node(object):
    def __init__(self, tag, attrs, loops):
        self.tag, self.attrs, self.loops = tag, attrs, loops
        self.children, self.text, self.textconds = [], None, ()


def tagof(t):
    """('const', name) or ('key', term) of an element's tag; None without GPX's namespace"""
    if is_const(t) and isinstance(cval(t), str):
        s = cval(t)
        return ("const", s[len(NS):]) if s.startswith(NS) else ("plain", s)
    if t.op == "bin" and t.args[0] == "+" and is_const(t.args[1]):
        if cval(t.args[1]) == NS:
            return ("key", t.args[2])
        return ("plain", cval(t.args[1]))
    if t.op in ("elem", "item"):
        return ("plain", fmt(t)[:40])
    if t.op == "mcall" and t.args[1] == "format" and is_const(t.args[0]):
        return None
    return None


def tree(q, it):
    """document tree from the sequence of element constructions, appends and text assignments"""
    nodes, problems = {}, []
    for e in q.events:
        t = e.term
        if e.kind == "call" and extname(t) and extname(t).split(".")[-1] in ("Element", "SubElement"):
            sub = extname(t).endswith("SubElement")
            pos = [v for k, v in t.args[1] if isinstance(k, int)]
            kw = {k: v for k, v in t.args[1] if not isinstance(k, int) and k != "#"}
            tag = pos[1] if sub else pos[0]
            extra = pos[2:] if sub else pos[1:]
            if "attrib" in kw:
                extra = extra + [kw.pop("attrib")]
            for d in extra:
                d = it.reify(d, q.state)
                if d.op == "dict":
                    for x in d.args:
                        if x.op == "kv" and is_const(x.args[0]):
                            kw[cval(x.args[0])] = x.args[1]
                        else:
                            problems.append("attributes")
                else:
                    problems.append("attributes")
            n = Node(tagof(tag), kw, e.loops)
            nodes[t] = n
            if sub:
                if pos[0] in nodes:
                    nodes[pos[0]].children.append((n, e.loops, e.conds))
                else:
                    problems.append("parent")
        elif e.kind == "setattr" and e.extra and e.extra[0] == "text":
            if t in nodes:
                nodes[t].text = e.extra[1]
                nodes[t].textconds = e.conds
            else:
                problems.append("text of an unknown element")
        elif e.kind == "mcall" and t.args[1] == "set" and t.args[0] in nodes and len(t.args[2]) == 2 and is_const(t.args[2][0][1]):
            nodes[t.args[0]].attrs[cval(t.args[2][0][1])] = t.args[2][1][1]
        elif e.kind == "mcall" and t.args[0] in nodes and t.args[1] in ("append", "insert", "extend", "remove"):
            if t.args[1] == "append" and len(t.args[2]) == 1 and t.args[2][0][1] in nodes:
                nodes[t.args[0]].children.append((nodes[t.args[2][0][1]], e.loops, e.conds))
            elif t.args[1] == "insert" and len(t.args[2]) == 2 and t.args[2][1][1] in nodes and e.loops:
                problems.append(("insert", fmt(t)[:60]))
            elif t.args[1] == "append" and len(t.args[2]) == 1 and t.args[2][0][1].op == "last":
                problems.append(("last", fmt(t.args[2][0][1])[:60]))
            else:
                problems.append("children added by %s" % t.args[1])
    return nodes, problems


def newloops(loops, parent):
    return loops[len(parent):] if loops[:len(parent)] == parent else loops


class Writer(object):
    def __init__(self, ctx):
        self.c, self.rep = ctx, ctx.rep

    def run(self):
        rep = self.rep
        cls = self.c.m.classes.get("GPX")
        f = cls.lookup("as_string") if cls else None
        if f is None:
            rep.undec("no as_string")
            return
        rep.fn("GPX.as_string")
        self.where = "%s (%s)" % (f.where, f.qual)
        self.con = "as_string"
        for n in ("waypts", "tracks", "routes"):
            d = f.defaults.get(n) if isinstance(f.defaults, dict) else None
            if d is not None and isinstance(d, ast.Constant) and d.value is False:
                rep.bad("missing", "as_string %s" % n, "%s are not written by default" % n, self.where)
        it = Interp(self.c.p, Flow())
        for q in it.run(f, cls):
            if q.kind != "return":
                continue
            nodes, problems = tree(q, it)
            roots = [n for n in nodes.values() if n.tag == ("const", "gpx")]
            if len(roots) != 1:
                rep.undec("as_string: root element")
                continue
            for x in problems:
                if isinstance(x, tuple) and x[0] == "last":
                    rep.bad("missing", "as_string last", "of several elements only the last is added: %s" % x[1], self.where)
                elif isinstance(x, tuple):
                    rep.bad("order", "as_string insert", "elements are added in front of earlier ones: %s" % x[1], self.where)
                else:
                    rep.undec("as_string: %s" % x)
            if problems:
                continue
            on = {}
            for c, b in q.conds:
                u, v = c, b
                while u.op == "not":
                    u, v = u.args[0], not v
                if u.op == "param":
                    on[u.args[0]] = v
            root = roots[0]
            for flag, attr, tag, kind in (("waypts", "waypts", "wpt", "Point"), ("tracks", "tracks", "trk", "Track"),
                                          ("routes", "routes", "rte", "Route")):
                mine = [(n, newloops(l, ())) for n, l, c in root.children if n.tag == ("const", tag)]
                src = mk("attr", mk("param", "self"), attr)
                if on.get(flag) is False:
                    if mine:
                        rep.bad("selection", "as_string %s" % flag, "%s=False still writes <%s> elements" % (flag, tag), self.where)
                    else:
                        rep.ok("as_string: %s=False leaves them out" % flag, self.where)
                    continue
                self.group(root, tag, src, kind, flag)
            known = {("const", "wpt"), ("const", "trk"), ("const", "rte")}
            for n, l, c in root.children:
                if n.tag not in known:
                    if n.tag is not None and n.tag[0] in ("const", "plain"):
                        rep.bad("structure", "as_string <%s>" % n.tag[1], "an element <%s> that is not part of a GPX document "
                                "or has no namespace" % n.tag[1], self.where)
                    else:
                        rep.undec("as_string: children of the document")
            self.result(q, it, [t for t, n in nodes.items() if n is root][0])

    def result(self, q, it, root):
        v = it.reify(q.value, q.state)
        w = v
        while w.op == "mcall" and w.args[1] in ("decode", "encode"):
            w = w.args[0]
        if not any(x is root for x in walk(v, set())):
            self.rep.undec("as_string: result")
        elif w.op == "item" and w.args[1].op == "slice":
            self.rep.bad("missing", "as_string result", "only a part of the document is returned", self.where)
        else:
            self.rep.ok("as_string: the whole document is returned", self.where)

    def group(self, parent, tag, src, kind, what):
        """children <tag> of parent, one for each element of src, in order"""
        rep = self.rep
        mine = [(n, newloops(l, parent.loops)) for n, l, c in parent.children if n.tag == ("const", tag)]
        if not mine:
            if any(n.tag is None for n, l, c in parent.children):
                rep.undec("as_string: <%s>" % tag)
            else:
                rep.bad("missing", "as_string <%s>" % tag, "%s are not written as <%s>" % (what, tag), self.where)
            return
        for n, loops in mine:
            if not loops and len(n.loops) > len(parent.loops):
                rep.bad("missing", "as_string <%s>" % tag, "only the last of %s is written" % what, self.where)
                continue
            if len(loops) != 1:
                rep.undec("as_string: loops over %s" % what)
                continue
            base = strip_order(loops[0])
            if base is None:
                rep.bad("order", "as_string <%s>" % tag, "%s are not written in order or not all" % what, self.where)
                continue
            elems = self.element(loops[0], base, src, tag)
            if elems is None:
                continue
            rep.ok("as_string: one <%s> for each of %s, in order" % (tag, what), self.where)
            self.record(n, elems, kind, tag, what)

    def element(self, loop, base, src, tag):
        """predicate recognising the current element of a loop over src"""
        if base is src:
            return lambda t: t.op == "elem" and strip_order(t.args[0]) is src
        if extname(base) == "range" and any(x is src for x in walk(base, set())):
            return lambda t: t.op == "item" and t.args[0] is src and t.args[1].op in ("elem", "idx")
        if any(x is src for x in walk(base, set())):
            self.rep.undec("as_string: loop of <%s>" % tag)
        else:
            self.rep.bad("structure", "as_string <%s>" % tag, "<%s> elements are made from %s instead of %s" %
                         (tag, fmt(base)[:60], fmt(src)[:60]), self.where)
        return None

    def record(self, n, is_elem, kind, tag, what):
        rep = self.rep
        if kind == "Point":
            for k, i in (("lon", 0), ("lat", 1)):
                v = n.attrs.get(k)
                if v is None:
                    rep.bad("coordinates", "<%s> %s" % (tag, k), "<%s> has no %s" % (tag, k), self.where)
                    continue
                v = text_source(v)
                if v.op == "item" and is_const(v.args[1]) and v.args[0].op == "attr" and v.args[0].args[1] == "lonlat" and \
                        is_elem(v.args[0].args[0]):
                    if cval(v.args[1]) == i:
                        rep.ok("<%s>: %s is coordinate %d" % (tag, k, i), self.where)
                    else:
                        rep.bad("coordinates", "<%s> %s" % (tag, k), "%s is coordinate %s" % (k, cval(v.args[1])), self.where)
                elif is_const(v):
                    rep.bad("coordinates", "<%s> %s" % (tag, k), "%s is constant" % k, self.where)
                else:
                    rep.undec("<%s>: %s" % (tag, k))
        self.entries(n, is_elem, "properties", tag, n)
        ext = [(c, newloops(l, n.loops)) for c, l, cc in n.children if c.tag == ("const", "extensions")]
        if not ext:
            if any(c.tag is None for c, l, cc in n.children):
                rep.undec("<%s>: extensions" % tag)
            else:
                rep.bad("missing", "<%s> extensions" % tag, "extensions are not written", self.where)
        for c, l in ext:
            if l:
                rep.undec("<%s>: extensions" % tag)
            else:
                self.entries(c, is_elem, "extensions", tag, n)
        if kind in PARTS:
            field, sub, subkind = PARTS[kind]
            found = [x for c, l, cc in n.children for lo in newloops(l, n.loops) for x in [strip_order(lo)]
                     if x is not None and any(y.op == "attr" and y.args[1] == field and is_elem(y.args[0])
                                              for y in walk(x, set()))]
            src = None
            for x in found:
                for y in walk(x, set()):
                    if y.op == "attr" and y.args[1] == field and is_elem(y.args[0]):
                        src = y
            if src is None:
                # not looped over at all, or in another order
                kids = [c for c, l, cc in n.children if c.tag == ("const", sub)]
                loops = [lo for c, l, cc in n.children if c.tag == ("const", sub) for lo in newloops(l, n.loops)]
                if kids and any(strip_order(lo) is None for lo in loops):
                    rep.bad("order", "as_string <%s>" % sub, "<%s> elements are not written in order or not all" % sub, self.where)
                elif kids and not loops and any(len(k.loops) > len(n.loops) for k in kids):
                    rep.bad("missing", "as_string <%s>" % sub, "only the last part of a <%s> is written" % tag, self.where)
                elif not kids and not any(c.tag is None for c, l, cc in n.children):
                    rep.bad("missing", "as_string <%s>" % sub, "the parts of <%s> are not written as <%s>" % (tag, sub), self.where)
                elif any(y.op == "attr" and y.args[1] == field and y.args[0].op == "item" and
                         not any(is_elem(z) for z in walk(y, set())) for lo in loops for y in walk(lo, set())):
                    rep.bad("structure", "as_string <%s>" % sub, "the parts of every <%s> are those of one element" % tag, self.where)
                else:
                    rep.undec("<%s>: parts" % tag)
                return
            self.group(n, sub, src, subkind, "%s of <%s>" % (field, tag))

    def entries(self, n, is_elem, field, tag, owner):
        """children of n made from the dictionary `field` of the current element"""
        rep = self.rep
        hit = False
        for c, l, cc in n.children:
            if c.tag is None:
                rep.undec("<%s>: %s" % (tag, field))
                return
            loops = newloops(l, n.loops)
            if c.tag[0] == "plain":
                rep.bad("structure", "<%s> namespace" % tag, "children of <%s> have no namespace and are not read" % tag, self.where)
                hit = True
                continue
            if c.tag[0] != "key":
                continue
            key = c.tag[1]
            ds = {x for x in walk(key, set()) if x.op == "attr" and x.args[1] in ("properties", "extensions")}
            alien = [x for x in ds if not is_elem(x.args[0])]
            ds = {x for x in ds if is_elem(x.args[0])}
            if not ds and alien and not any(is_elem(y) for y in walk(key, set())):
                rep.bad("structure", "<%s> %s" % (tag, field), "%s are those of %s" % (field, fmt(alien[0].args[0])[:60]), self.where)
                hit = True
                continue
            if len(ds) != 1:
                rep.undec("<%s>: %s" % (tag, field))
                hit = True
                continue
            d = ds.pop()
            hit = True
            if d.args[1] != field:
                rep.bad("structure", "<%s> %s" % (tag, field), "%s are written as %s" % (d.args[1], field), self.where)
                continue
            if c.text is None:
                rep.bad("missing", "<%s> %s" % (tag, field), "the values of %s are not written" % field, self.where)
                continue
            v = text_source(c.text)
            for cc_, b in c.textconds:
                if cc_.op != "isnone" and (text_source(cc_) is v or cc_.op == "not" and text_source(cc_.args[0]) is v):
                    rep.bad("missing", "<%s> %s" % (tag, field), "values like 0 are not written", self.where)
            if v.op == "item" and v.args[0] is d and v.args[1] is key:
                rep.ok("<%s>: one child with its value for each of the %s" % (tag, field), self.where)
            elif v.op == "item" and key.op == "item" and v.args[0] is key.args[0] and cval(v.args[1]) == 1 and cval(key.args[1]) == 0:
                rep.ok("<%s>: one child with its value for each of the %s" % (tag, field), self.where)
            elif is_const(v) or v is key:
                rep.bad("structure", "<%s> %s" % (tag, field), "the text of a child is not the value of the property", self.where)
            else:
                rep.undec("<%s>: value of %s" % (tag, field))
        if not hit:
            rep.bad("missing", "<%s> %s" % (tag, field), "%s are not written" % field, self.where)


# ---------------------------------------------------------------- reader
def nodes_of(t):
    """(node, name) when t is node.findall(ns + name)"""
    if t.op == "mcall" and t.args[1] in ("findall", "iterfind", "iter") and t.args[2]:
        x = t.args[2][0][1]
        if is_const(x) and isinstance(cval(x), str):
            return t.args[0], cval(x), t.args[1]
    return None


class Reader(object):
    def __init__(self, ctx):
        self.c, self.rep = ctx, ctx.rep

    def run(self):
        rep = self.rep
        cls = self.c.m.classes.get("GPX")
        f = cls.lookup("fromfile") if cls else None
        if f is None:
            rep.undec("no fromfile")
            return
        rep.fn("GPX.fromfile")
        self.where = "%s (%s)" % (f.where, f.qual)
        it = Interp(self.c.p, Flow())
        self.ext_kinds = {}
        want = {"waypts": ("wpt", "Point"), "tracks": ("trk", "Track"), "routes": ("rte", "Route")}
        for q in it.run(f, cls):
            if q.kind != "return":
                continue
            got = set()
            for e in q.events:
                if e.kind != "mcall" or e.term.args[1] not in ("append", "insert") or e.term.args[0].op != "attr" or \
                        e.term.args[0].args[0] is not mk("param", "self") or e.term.args[0].args[1] not in want:
                    continue
                name = e.term.args[0].args[1]
                got.add(name)
                tag, kind = want[name]
                if e.term.args[1] == "insert":
                    rep.bad("order", "fromfile %s" % name, "%s are not kept in the document's order" % name, self.where)
                    continue
                v = it.reify(e.term.args[2][-1][1], q.state)
                if len(e.loops) != 1:
                    rep.undec("fromfile: loops of %s" % name)
                    continue
                self.from_nodes(e.loops[0], v, tag, kind, name)
            for name in want:
                if name not in got:
                    ext = [e for e in q.events if e.kind in ("mcall", "setattr") and
                           any(x.op == "attr" and x.args[1] == name for x in walk(e.term, set())) or
                           e.kind == "setattr" and e.extra and e.extra[0] == name]
                    if ext:
                        rep.undec("fromfile: %s" % name)
                    else:
                        rep.bad("missing", "fromfile %s" % name, "%s are not read" % name, self.where)

        for what, kept in self.ext_kinds.items():
            if not kept:
                rep.bad("missing", "fromfile %s extensions" % what, "extensions of %s are not read" % what, self.where)

    def from_nodes(self, loop, v, tag, kind, what):
        rep = self.rep
        base = strip_order(loop)
        if base is None:
            rep.bad("order", "fromfile %s" % what, "%s are not read in order or not all" % what, self.where)
            return
        r = nodes_of(base)
        if r is None:
            rep.undec("fromfile: elements of %s" % what)
            return
        if r[1] != NS + tag:
            rep.bad("structure", "fromfile %s" % what, "%s are read from %r instead of %r" % (what, r[1], NS + tag), self.where)
            return
        if r[2] == "iter":
            rep.undec("fromfile: elements of %s" % what)
            return
        rep.ok("fromfile: %s come from <%s> in order" % (what, tag), self.where)
        self.record(v, lambda t: t.op == "elem" and strip_order(t.args[0]) is base, kind, what)

    def record(self, v, is_node, kind, what):
        rep = self.rep
        name, d = self.c.record(v)
        if v.op == "phi" or name is None:
            rep.undec("fromfile: records of %s" % what)
            return
        if name != kind:
            rep.bad("structure", "fromfile %s" % what, "%s become %s records" % (what, name), self.where)
            return
        if kind == "Point":
            ll = d.get("lonlat")
            if ll is None or ll.op not in ("tuple", "list") or len(ll.args) != 2:
                rep.undec("fromfile: coordinates of %s" % what)
            else:
                for k, x in zip(("lon", "lat"), ll.args):
                    keys = {cval(y.args[1]) for y in walk(x, set()) if y.op == "item" and is_const(y.args[1])
                            and y.args[0].op == "attr" and y.args[0].args[1] == "attrib"}
                    keys |= {cval(y.args[2][0][1]) for y in walk(x, set()) if y.op == "mcall" and y.args[1] == "get"
                             and y.args[2] and is_const(y.args[2][0][1])}
                    own = any(is_node(y) for y in walk(x, set()))
                    if keys == {k} and own:
                        rep.ok("fromfile: the %s coordinate of %s is %s" % ("first" if k == "lon" else "second", what, k), self.where)
                    elif keys and own and keys <= {"lon", "lat"}:
                        rep.bad("coordinates", "fromfile %s %s" % (what, k), "the %s coordinate is %s" %
                                ("first" if k == "lon" else "second", sorted(keys)[0]), self.where)
                    else:
                        rep.undec("fromfile: %s of %s" % (k, what))
        self.props(d.get("properties"), is_node, kind, what)
        self.exts(d.get("extensions"), is_node, kind, what)
        if kind in PARTS:
            field, tag, sub = PARTS[kind]
            x = d.get(field)
            if x is None or x.op != "list" or not x.args or any(a.op != "each" for a in x.args):
                if x is not None and x.op == "list" and all(a.op == "star" for a in x.args) and any(
                        extname(a.args[0]) == "reversed" for a in x.args):
                    rep.bad("order", "fromfile %s" % field, "%s are read in reverse" % field, self.where)
                elif x is not None and x.op == "list" and not x.args:
                    rep.bad("missing", "fromfile %s" % field, "%s are not read" % field, self.where)
                else:
                    rep.undec("fromfile: %s" % field)
                return
            for a in x.args:
                base = strip_order(a.args[0])
                r = nodes_of(base) if base is not None else None
                if r is not None and not is_node(r[0]):
                    rep.bad("structure", "fromfile %s" % field, "%s are read from another element" % field, self.where)
                    continue
                self.from_nodes(a.args[0], a.args[3], tag, sub, field)

    def dict_entries(self, t):
        if t is None:
            return None
        if t.op == "phi":
            out = []
            for a in t.args:
                for b in (a if isinstance(a, tuple) else (a,)):
                    if isinstance(b, tuple):
                        b = b[-1]
                    if isinstance(b, T):
                        e = self.dict_entries(b)
                        if e is None:
                            return None
                        out += e
            return out
        if t.op != "dict":
            return None
        out = []
        for x in t.args:
            if x.op == "each" and x.args[3].op == "kv":
                out.append((x.args[0], x.args[2], x.args[3].args[0], x.args[3].args[1]))
            elif x.op == "kv":
                out.append((None, (), x.args[0], x.args[1]))
            else:
                return None
        return out

    def keyed(self, k, v, elem, what, label):
        """key is the tag without namespace, value the text"""
        rep = self.rep
        tags = [x for x in walk(k, set()) if x.op == "attr" and x.args[1] == "tag" and x.args[0] is elem]
        if not tags:
            rep.undec("fromfile: names of %s of %s" % (label, what))
            return
        if k is tags[0]:
            rep.bad("structure", "fromfile %s %s names" % (what, label), "names keep their namespace", self.where)
        elif k.op == "item" and k.args[1].op == "slice":
            s = k.args[1].args[0]
            if s.op == "bin" and s.args[0] == "+" and any(is_const(x) and cval(x) == 1 for x in s.args[1:]) and \
                    any(x.op == "mcall" and x.args[1] in ("index", "find", "rindex", "rfind") for x in s.args[1:]):
                rep.ok("fromfile: names of %s of %s are tags without namespace" % (label, what), self.where)
            elif s.op == "mcall":
                rep.bad("structure", "fromfile %s %s names" % (what, label), "names keep the end of their namespace", self.where)
            elif is_const(s) and s.args[1] == len(NS):
                rep.ok("fromfile: names of %s of %s are tags without namespace" % (label, what), self.where)
            else:
                rep.undec("fromfile: names of %s of %s" % (label, what))
        else:
            rep.undec("fromfile: names of %s of %s" % (label, what))
        if v is mk("attr", elem, "text"):
            rep.ok("fromfile: values of %s of %s are texts" % (label, what), self.where)
        elif is_const(v) or v.op == "attr" and v.args[1] in ("tag", "tail"):
            rep.bad("structure", "fromfile %s %s values" % (what, label), "values are not the elements' texts", self.where)
        else:
            rep.undec("fromfile: values of %s of %s" % (label, what))

    def props(self, t, is_node, kind, what):
        rep = self.rep
        es = self.dict_entries(t)
        if es is None:
            rep.undec("fromfile: properties of %s" % what)
            return
        if not es:
            rep.bad("missing", "fromfile %s properties" % what, "properties of %s are not read" % what, self.where)
        for it, conds, k, v in es:
            base = strip_order(it) if it is not None else None
            if base is None:
                rep.undec("fromfile: properties of %s" % what)
                continue
            if not is_node(base):
                r = [x for x in walk(base, set()) if is_node(x)]
                if base.op == "mcall" and base.args[1] == "find":
                    rep.bad("structure", "fromfile %s properties" % what, "properties are read from <%s>" %
                            (cval(base.args[2][0][1]) if base.args[2] and is_const(base.args[2][0][1]) else "?"), self.where)
                elif r:
                    rep.undec("fromfile: properties of %s" % what)
                else:
                    rep.bad("structure", "fromfile %s properties" % what, "properties of %s are read from another element" % what,
                            self.where)
                continue
            elem = [x for x in walk(k, set()) if x.op == "elem" and strip_order(x.args[0]) is base]
            if not elem:
                rep.undec("fromfile: properties of %s" % what)
                continue
            self.keyed(k, v, elem[0], what, "properties")
            excluded, odd = set(), False
            for c, b in conds:
                if not any(x is elem[0] for x in walk(c, set())):
                    continue
                u, val = c, b
                while u.op == "not":
                    u, val = u.args[0], not val
                names = set()
                if u.op == "cmp" and u.args[0] == "==":
                    names = {cval(x) for x in u.args[1:] if is_const(x) and isinstance(cval(x), str)}
                elif u.op == "in" and u.args[1].op in ("tuple", "list", "set"):
                    names = {cval(x) for x in u.args[1].args if is_const(x)}
                if names and not val:
                    excluded |= {n[len(NS):] if n.startswith(NS) else n for n in names}
                elif names:
                    odd = True
                    rep.bad("missing", "fromfile %s properties" % what, "only %s are read as properties" % sorted(names), self.where)
                elif u.op != "exc":
                    odd = True
                    rep.undec("fromfile: exclusions of %s" % what)
            if odd:
                continue
            need = STRUCT[kind]
            if need - excluded:
                rep.bad("structure", "fromfile %s properties" % what, "<%s> elements become properties of %s" %
                        (">, <".join(sorted(need - excluded)), what), self.where)
            elif excluded & GPXNAMES:
                rep.bad("missing", "fromfile %s properties" % what, "the properties %s are not read" % sorted(excluded & GPXNAMES), self.where)
            else:
                rep.ok("fromfile: every child of %s except %s is a property" % (what, ", ".join(sorted(excluded))), self.where)

    def exts(self, t, is_node, kind, what):
        rep = self.rep
        self.ext_kinds.setdefault(what, False)
        if t is not None and t.op == "phi" and any(x.op == "unknown" and x.args[:1] == ("try",) for x in walk(t, set())):
            return                              # what is left after an exception was caught
        es = self.dict_entries(t)
        if es is None:
            rep.undec("fromfile: extensions of %s" % what)
            self.ext_kinds[what] = True
            return
        if not es:
            return                              # there is no <extensions> on this path
        self.ext_kinds[what] = True
        for it, conds, k, v in es:
            base = strip_order(it) if it is not None else None
            if base is None:
                rep.undec("fromfile: extensions of %s" % what)
                continue
            src = base
            if src.op == "mcall" and src.args[1] == "find" and src.args[2] and is_const(src.args[2][0][1]):
                if not is_node(src.args[0]):
                    rep.bad("structure", "fromfile %s extensions" % what, "extensions of %s are read from another element" % what, self.where)
                    continue
                if cval(src.args[2][0][1]) != NS + "extensions":
                    rep.bad("structure", "fromfile %s extensions" % what, "extensions are looked for in <%s>" %
                            cval(src.args[2][0][1]), self.where)
                    continue
            elif is_node(src):
                rep.bad("structure", "fromfile %s extensions" % what, "properties of %s become extensions" % what, self.where)
                continue
            else:
                rep.undec("fromfile: extensions of %s" % what)
                continue
            elem = [x for x in walk(k, set()) if x.op == "elem" and strip_order(x.args[0]) is base]
            if not elem:
                rep.undec("fromfile: extensions of %s" % what)
                continue
            self.keyed(k, v, elem[0], what, "extensions")



# ---------------------------------------------------------------- adding geometries
class Adder(object):
    def __init__(self, ctx):
        self.c, self.rep = ctx, ctx.rep

    def run(self, name):
        rep = self.rep
        cls = self.c.m.classes.get("GPX")
        f = cls.lookup(name) if cls else None
        if f is None:
            rep.undec("no %s" % name)
            return
        rep.fn("GPX." + name)
        self.con, self.where = name, "%s (%s)" % (f.where, f.qual)
        target, kind = {"add_waypoint": ("waypts", "Point"), "add_track": ("tracks", "Track"),
                        "add_route": ("routes", "Route")}[name]
        it = Interp(self.c.p, Flow())
        for q in it.run(f, cls):
            if q.kind != "return":
                continue
            ap = [e for e in q.events if e.kind == "mcall" and e.term.args[1] in ("append", "insert") and
                  e.term.args[0].op == "attr" and e.term.args[0].args[0] is mk("param", "self")]
            if not ap:
                rep.bad("missing", name, "nothing is added to the document", self.where)
            for e in ap:
                if e.term.args[0].args[1] != target or e.term.args[1] == "insert":
                    rep.bad("structure", name, "the record is added to %s by %s" % (e.term.args[0].args[1], e.term.args[1]), self.where)
                    continue
                v = it.reify(e.term.args[2][-1][1], q.state)
                k, d = self.c.record(v)
                if k is None:
                    rep.undec("%s: record" % name)
                    continue
                if k != kind:
                    rep.bad("structure", name, "a %s record is added" % k, self.where)
                    continue
                if name == "add_waypoint":
                    geom = mk("param", f.pos[1].name if hasattr(f.pos[1], "name") else f.pos[1])
                    self.point(d, lambda t: vert(t, geom, "vertex"), ("attr", geom, "properties"), None, q.conds, "waypoint")
                elif name == "add_route":
                    geom = mk("param", f.pos[1].name if hasattr(f.pos[1], "name") else f.pos[1])
                    self.attrs(d, lambda t: t is mk("attr", geom, "properties"), "route", q.conds, geom)
                    self.points(d.get("rtepts"), geom, "route", q.conds)
                else:
                    self.attrs(d, lambda t: t.op == "mcall" and t.args[1] in ("get", "pop") or t is mk("param", "attributes") or
                               t.op == "item" and is_const(t.args[1]) and cval(t.args[1]) == "attributes", "track", q.conds)
                    segs = d.get("trksegs")
                    if segs is None or segs.op != "list" or not segs.args or any(a.op != "each" for a in segs.args):
                        if segs is not None and segs.op == "list" and segs.args and all(
                                a.op == "star" and extname(a.args[0]) == "reversed" for a in segs.args):
                            rep.bad("order", name, "segments are added in reverse", self.where)
                        else:
                            rep.undec("%s: segments" % name)
                        continue
                    for a in segs.args:
                        base = strip_order(a.args[0])
                        if base is None:
                            rep.bad("order", name, "segments are not added in order or not all", self.where)
                            continue
                        k2, d2 = self.c.record(a.args[3])
                        if k2 != "Trkseg":
                            rep.undec("%s: segment records" % name)
                            continue
                        geoms = {x for x in walk(a.args[3], set()) if x.op == "elem" and strip_order(x.args[0]) is base}
                        if len(geoms) != 1:
                            rep.undec("%s: segment geometry" % name)
                            continue
                        geom = geoms.pop()
                        self.attrs(d2, lambda t: t is mk("attr", geom, "properties"), "segment", a.args[2], geom)
                        self.points(d2.get("trkpts"), geom, "segment", a.args[2])

    def entries(self, t):
        """(source iterable, polarity of the test for GPX names, key, value) of a dictionary"""
        if t is None or t.op != "dict":
            return None
        out = []
        for x in t.args:
            conds = ()
            if x.op == "each" and x.args[3].op == "kv":
                it, conds, kv = x.args[0], list(x.args[2]), x.args[3]
                while it.op == "list" and len(it.args) == 1 and it.args[0].op == "each":
                    conds += list(it.args[0].args[2])
                    it = it.args[0].args[0]
                pol = None
                other = []
                for c, b in conds:
                    u, v = c, b
                    while u.op == "not":
                        u, v = u.args[0], not v
                    if u.op == "in" and (u.args[1].op == "global" and "VALID" in u.args[1].args[1].upper() or
                                         u.args[1].op in ("tuple", "set", "list")):
                        pol = v
                    elif any(y.op == "elem" for y in walk(u, set())) and not u.op == "isnone":
                        other.append((u, v))
                out.append((it, pol, kv.args[0], kv.args[1], other))
            elif x.op == "kv":
                out.append((None, None, x.args[0], x.args[1], []))
            elif x.op == "star":
                return None
            else:
                return None
        return out

    def attrs(self, d, is_src, what, conds, geom=None):
        self.split(d, is_src, what, conds, lambda it, k, v: self.plain_value(it, k, v), geom)

    def plain_value(self, it, k, v):
        v = text_source(v)
        if k.op == "elem":
            return v.op == "item" and v.args[1] is k and (v.args[0] is strip_order(it) or mk("mcall", v.args[0], "keys", ()) is it)
        if k.op == "item" and v.op == "item":
            return v.args[0] is k.args[0] and is_const(k.args[1]) and cval(k.args[1]) == 0 and cval(v.args[1]) == 1
        return None

    def source_of(self, it):
        b = strip_order(it)
        if b is not None and b.op == "mcall" and b.args[1] in ("keys", "items") and not b.args[2]:
            b = b.args[0]
        return b

    def split(self, d, is_src, what, conds, good_value, geom=None):
        """properties and extensions sorted by GPX's names"""
        rep = self.rep
        for field, want in (("properties", True), ("extensions", False)):
            es = self.entries(d.get(field))
            lab = "%s of a %s" % (field, what)
            if es is None:
                if d.get(field) is not None and d[field].op == "attr":
                    rep.bad("structure", "%s %s" % (self.con, lab), "%s are all of the geometry's properties, unsorted" % lab, self.where)
                else:
                    rep.undec("%s: %s" % (self.con, lab))
                continue
            loops = [e for e in es if e[0] is not None]
            if not loops:
                if any(b and c.op == "isnone" or c.op == "hasattr" and not b for c, b in conds):
                    pass
                elif any(y.op == "attr" and y.args[1] in ("data", "d", "fields") for c, b in conds for y in walk(c, set())):
                    rep.undec("%s: %s without data" % (self.con, lab))
                else:
                    rep.bad("missing", "%s %s" % (self.con, lab), "%s are lost" % lab, self.where)
                continue
            for it, pol, k, v, other in loops:
                src = self.source_of(it)
                if src is None or not is_src(src):
                    if src is not None and (src.op == "attr" and src.args[1] in ("properties", "data", "fields") or
                                            geom is not None and not any(x is geom for x in walk(it, set()))):
                        rep.bad("structure", "%s %s" % (self.con, lab), "%s are taken from %s" % (lab, fmt(src)[:60]), self.where)
                    else:
                        rep.undec("%s: source of %s" % (self.con, lab))
                    continue
                if other:
                    rep.undec("%s: conditions of %s" % (self.con, lab))
                    continue
                if pol is None:
                    rep.bad("structure", "%s %s" % (self.con, lab), "%s contain every attribute, whatever its name" % lab, self.where)
                elif pol is not want:
                    rep.bad("structure", "%s %s" % (self.con, lab), "%s contain the attributes %s GPX's names" %
                            (lab, "with" if pol else "without"), self.where)
                else:
                    g = good_value(it, k, v)
                    if g:
                        rep.ok("%s: %s are sorted by GPX's names and keep their values" % (self.con, lab), self.where)
                    elif g is False:
                        rep.bad("structure", "%s %s values" % (self.con, lab), "values of %s belong to another name or vertex" % lab, self.where)
                    else:
                        rep.undec("%s: values of %s" % (self.con, lab))

    def points(self, x, geom, what, outer=()):
        rep = self.rep
        if x is None or x.op != "list" or not x.args or any(a.op != "each" for a in x.args):
            if x is not None and x.op == "list" and x.args and all(a.op == "star" and extname(a.args[0]) == "reversed" for a in x.args):
                rep.bad("order", "%s points" % self.con, "points of a %s are added in reverse" % what, self.where)
            else:
                rep.undec("%s: points of a %s" % (self.con, what))
            return
        for a in x.args:
            base = strip_order(a.args[0])
            if base is None:
                rep.bad("order", "%s points" % self.con, "points of a %s are not added in order or not all" % what, self.where)
                continue
            if not (base.op == "mcall" and base.args[1] in ("vertices", "get_vertices", "coords") or
                    base.op == "attr" and base.args[1] in ("vertices", "coordinates")):
                rep.undec("%s: points of a %s" % (self.con, what))
                continue
            if base.args[0] is not geom:
                rep.bad("structure", "%s points" % self.con, "points are taken from another geometry", self.where)
                continue
            k, d = self.c.record(a.args[3])
            if k != "Point":
                rep.undec("%s: point records" % self.con)
                continue
            self.point(d, lambda t: t.op == "elem" and strip_order(t.args[0]) is base, None, (geom, base),
                       tuple(outer) + tuple(a.args[2]), what + " point")

    def point(self, d, is_vert, prop_src, data, conds, what):
        rep = self.rep
        ll = d.get("lonlat")
        rank3, tested = None, False
        for c, b in conds:
            u, v = c, b
            while u.op == "not":
                u, v = u.args[0], not v
            if u.op == "cmp" and (any(x.op == "len" for x in u.args[1:]) or
                                  any(x.op == "attr" and x.args[1] == "rank" for x in u.args[1:])):
                n = [(i, cval(x)) for i, x in enumerate(u.args[1:]) if is_const(x)]
                if len(n) == 1:
                    i, n = n[0]
                    holds = [r for r in (2, 3) if {"==": r == n, "<": n < r if i == 0 else r < n,
                                                   "<=": n <= r if i == 0 else r <= n}.get(u.args[0]) is v]
                    if holds:
                        rank3 = 3 in holds
                        continue
            if any(is_vert(x) or x.op in ("len", "exc") or x.op == "attr" and x.args[1] in ("rank", "shape") for x in walk(u, set())):
                tested = True
        if ll is None or ll.op not in ("tuple", "list"):
            if ll is not None and is_vert(ll):
                rep.ok("%s: coordinates of a %s" % (self.con, what), self.where)
            else:
                rep.undec("%s: coordinates of a %s" % (self.con, what))
        else:
            for i, x in enumerate(ll.args[:2]):
                lab = "%s coordinate %d of a %s" % (self.con, i, what)
                if x.op == "item" and is_const(x.args[1]) and is_vert(x.args[0]):
                    if cval(x.args[1]) == i:
                        rep.ok(lab, self.where)
                    else:
                        rep.bad("coordinates", lab, "coordinate %d is coordinate %s of the vertex" % (i, cval(x.args[1])), self.where)
                elif is_const(x):
                    rep.bad("coordinates", lab, "constant", self.where)
                else:
                    rep.undec(lab)
        es = self.entries(d.get("properties"))
        if es is not None:
            ele = [e for e in es if e[0] is None and is_const(e[2]) and cval(e[2]) == "ele"]
            for e in ele:
                v = text_source(e[3])
                if v.op == "item" and is_const(v.args[1]) and is_vert(v.args[0]):
                    if cval(v.args[1]) == 2 or cval(v.args[1]) == -1 and rank3:
                        rep.ok("%s: the elevation of a %s is its third coordinate" % (self.con, what), self.where)
                    else:
                        rep.bad("coordinates", "%s elevation of a %s" % (self.con, what), "the elevation is coordinate %s" %
                                cval(v.args[1]), self.where)
                else:
                    rep.undec("%s: elevation of a %s" % (self.con, what))
            if not ele and rank3:
                rep.bad("missing", "%s elevation of a %s" % (self.con, what), "the third coordinate is lost", self.where)
            if not ele and rank3 is None and tested:
                rep.undec("%s: elevation of a %s" % (self.con, what))
            elif not ele and rank3 is None and not any(
                    x.op == "item" and is_const(x.args[1]) and cval(x.args[1]) == 2 for x in walk(d["properties"], set())) and \
                    not (ll is not None and ll.op not in ("tuple", "list")):
                rep.bad("missing", "%s elevation of a %s" % (self.con, what), "the third coordinate is lost", self.where)
            for e in es:
                if e[0] is None and is_const(e[2]) and cval(e[2]) not in ("ele",):
                    rep.undec("%s: extra property of a %s" % (self.con, what))
        if prop_src is not None:
            src = mk(*prop_src)
            self.attrs(d, lambda t: t is src, what, conds)
        elif data is not None:
            geom, base = data
            nodata = any(b and c.op == "isnone" and any(x is geom for x in walk(c, set())) for c, b in conds)
            if nodata or any(c.op == "hasattr" and not b for c, b in conds):
                return

            def good(it, k, v):
                v = text_source(v)
                if v.op != "item":
                    return None
                row, col = v.args[1], v.args[0]
                if row.op == "item" or col.op != "item":
                    return None
                if col.args[1] is not k:
                    return False if col.args[1].op in ("elem", "const") else None
                if not any(x is geom for x in walk(col.args[0], set())):
                    return False
                if row.op == "idx" and strip_order(row.args[0]) is base:
                    return True
                if row.op == "elem" and extname(row.args[0]) == "range":
                    return None
                if is_const(row):
                    return False
                if row.op == "bin" and any(x.op == "idx" for x in row.args[1:]) and any(is_const(x) for x in row.args[1:]):
                    return False
                return None
            self.split(d, lambda t: t.op == "attr" and t.args[1] == "fields" and any(x is geom for x in walk(t, set())) or
                       t.op == "attr" and t.args[1] in ("d", "data") and t.args[0] is geom,
                       what, conds, good)


def vert(t, geom, *names):
    if t.op == "mcall" and t.args[0] is geom and t.args[1] in names + ("get_vertex",):
        return True
    if t.op == "attr" and t.args[0] is geom and t.args[1] in ("vertex",):
        return True
    return False


# ---------------------------------------------------------------- geometry readers
def geometries(ctx):
    rep, p = ctx.rep, ctx.p
    m = p.modules["karta.vector.read"]
    for name, attr in (("read_gpx_waypts", "waypts"), ("read_gpx_tracks", "tracks")):
        f = m.funcs.get(name)
        if f is None:
            rep.undec("no %s" % name)
            continue
        rep.fn("read." + name)
        where = "%s (%s)" % (f.where, f.qual)
        it = Interp(p, Flow("karta.vector.read"))
        for q in it.run(f):
            if q.kind != "return":
                continue
            v = it.reify(q.value, q.state)
            one = unlist(v)
            if one is None:
                rep.undec("%s: result" % name)
                continue
            src, val = one
            base = strip_order(src)
            if base is None:
                rep.bad("order", name, "%s are not returned in order or not all" % attr, where)
                continue
            if base.op != "attr" or base.args[1] not in ("waypts", "tracks", "routes"):
                rep.undec("%s: source" % name)
                continue
            if base.args[1] != attr:
                rep.bad("structure", name, "%s are returned instead of %s" % (base.args[1], attr), where)
                continue
            rep.ok("%s: one result for each of %s, in order" % (name, attr), where)
            rec = [x for x in walk(val, set()) if x.op == "elem" and strip_order(x.args[0]) is base]
            if attr == "tracks":
                one = unlist(val)
                if one is None:
                    if rec and any(x.op == "item" and is_const(x.args[1]) and x.args[0] is mk("attr", rec[0], "trksegs")
                                   for x in walk(val, set())):
                        rep.bad("missing", name + " segments", "only one segment of a track is returned", where)
                    else:
                        rep.undec("%s: segments" % name)
                    continue
                src, val = one
                b2 = strip_order(src)
                if b2 is None:
                    rep.bad("order", name, "segments are not returned in order or not all", where)
                    continue
                if not (b2.op == "attr" and b2.args[1] == "trksegs" and rec and b2.args[0] is rec[0]):
                    rep.undec("%s: segments" % name)
                    continue
                rec = [x for x in walk(val, set()) if x.op == "elem" and strip_order(x.args[0]) is b2]
            if val.op != "new" or not rec:
                rep.undec("%s: geometry" % name)
                continue
            r = rec[0]
            cls = val.args[0].args[0].split(".")[-1]
            want = "Point" if attr == "waypts" else "Line"
            if cls != want:
                rep.bad("structure", name, "%s become %s geometries" % (attr, cls), where)
                continue
            a = dict(val.args[1])
            c = a.get("crs")
            if c is None or c.op == "global" and c.args[1] in ("Cartesian", "LonLatNAD83", "LonLatNAD27", "WebMercator"):
                rep.bad("coordinates", name + " crs", "the geometries are not in WGS84 longitude and latitude", where)
            elif c.op == "global" and c.args[1] == "LonLatWGS84":
                rep.ok("%s: geometries are in WGS84" % name, where)
            else:
                rep.undec("%s: coordinate system" % name)
            x = a.get("coords", a.get("vertex")) if attr == "waypts" else a.get("coords", a.get("vertices"))
            if x is None:
                x = a.get(0)
            if x is None:
                rep.undec("%s: coordinates" % name)
            elif attr == "waypts":
                coords(rep, name, x, lambda t: t is r, where)
            else:
                one = unlist(x)
                if one is None:
                    rep.undec("%s: coordinates" % name)
                else:
                    b3 = strip_order(one[0])
                    if b3 is None:
                        rep.bad("order", name + " points", "points are not returned in order or not all", where)
                    elif b3.op == "attr" and b3.args[1] == "trkpts" and b3.args[0] is r:
                        coords(rep, name, one[1], lambda t: t.op == "elem" and strip_order(t.args[0]) is b3, where)
                    else:
                        rep.undec("%s: points" % name)
            pr = a.get("properties")
            for field in ("properties", "extensions"):
                if pr is not None and any(y is mk("attr", r, field) for y in walk(pr, set())):
                    rep.ok("%s: %s are kept" % (name, field), where)
                else:
                    rep.bad("missing", "%s %s" % (name, field), "%s are lost" % field, where)


def coords(rep, name, x, is_rec, where):
    if x.op == "attr" and x.args[1] == "lonlat" and is_rec(x.args[0]):
        rep.ok("%s: coordinates are longitude and latitude" % name, where)
    elif x.op in ("tuple", "list") and len(x.args) == 2 and all(
            y.op == "item" and is_const(y.args[1]) and y.args[0].op == "attr" and y.args[0].args[1] == "lonlat" for y in x.args):
        if [cval(y.args[1]) for y in x.args] == [0, 1]:
            rep.ok("%s: coordinates are longitude and latitude" % name, where)
        else:
            rep.bad("coordinates", name, "longitude and latitude are exchanged", where)
    elif x.op == "item" and x.args[1].op == "slice" and [cval(y) if is_const(y) else 0 for y in x.args[1].args] == [None, None, -1]:
        rep.bad("coordinates", name, "longitude and latitude are exchanged", where)
    else:
        rep.undec("%s: coordinates" % name)


def unlist(v):
    """(iterable, value) of a list with one value per element"""
    while extname(v) in ("list", "tuple"):
        v = cargs(v)[0]
    if extname(v) == "reversed":
        return v, v
    if v.op == "list" and len(v.args) == 1 and v.args[0].op == "each" and not v.args[0].args[2]:
        return v.args[0].args[0], v.args[0].args[3]
    return None


def constructor(ctx):
    rep = ctx.rep
    cls = ctx.m.classes.get("GPX")
    f = cls.lookup("__init__") if cls else None
    if f is None:
        return
    where = "%s (%s)" % (f.where, f.qual)
    rep.fn("GPX.__init__")
    it = Interp(ctx.p, Policy())
    want = {"waypoints": "add_waypoint", "tracks": "add_track", "routes": "add_route"}
    seen = {}
    for q in it.run(f, cls):
        if q.kind != "return":
            continue
        for e in q.events:
            t = e.term
            name = None
            if e.kind == "mcall":
                name, a = t.args[1], t.args[2]
            elif e.kind == "call" and t.args[0].op == "func":
                name, a = t.args[0].args[0].split(".")[-1], t.args[1]
            if name in want.values() and len(e.loops) == 1:
                src = {x.args[0] for _, v in a if isinstance(v, T) for x in walk(v, set()) if x.op == "param" and x.args[0] in want}
                for s in src:
                    seen.setdefault(s, set()).add(name)
    for s, n in seen.items():
        if n == {want[s]}:
            rep.ok("GPX(%s=…) adds each of them" % s, where)
        else:
            rep.bad("structure", "GPX %s" % s, "%s are added by %s" % (s, ", ".join(sorted(n))), where)
    for s in want:
        if s not in seen and seen:
            rep.bad("missing", "GPX %s" % s, "%s given to the constructor are ignored" % s, where)


def fresh(ctx):
    """records do not share their lists and dictionaries"""
    rep = ctx.rep
    cls = ctx.m.classes.get("GPX")
    for name in ("fromfile", "add_waypoint", "add_track", "add_route"):
        f = cls.lookup(name) if cls else None
        if f is None:
            continue
        it = Interp(ctx.p, Flow())
        n = len(it.run(f, cls))
        where = "%s (%s)" % (f.where, f.qual)
        for qual, kind in sorted(it.shared):
            rep.bad("structure", "%s shared %s" % (name, kind), "in %s every record of a loop gets the same %s, which the loop changes" %
                    (qual, kind), where)
        if n and not it.shared:
            rep.ok("%s: every record has lists and dictionaries of its own" % name, where)
    for f in list(ctx.m.funcs.values()) + [g for c in ctx.m.classes.values() for g in c.methods.values()]:
        a = f.node.args
        ds = list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d]
        for x, d in ds:
            if not (isinstance(d, (ast.Dict, ast.List, ast.Set)) or isinstance(d, ast.Call) and
                    getattr(d.func, "id", "") in ("dict", "list", "set")):
                continue
            for n in ast.walk(f.node):
                hit = isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and \
                    isinstance(n.value, ast.Name) and n.value.id == x.arg or \
                    isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                    n.func.value.id == x.arg and n.func.attr in ("append", "update", "setdefault", "extend", "add", "insert", "pop")
                if hit:
                    rep.bad("structure", "%s default %s" % (f.name, x.arg), "the default of %s is changed and shared by all calls" % x.arg,
                            "%s:%d (%s)" % (ctx.m.rel, n.lineno, f.qual))


def names(ctx):
    """the list of GPX's property names"""
    rep = ctx.rep
    for st in ctx.m.tree.body:
        if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name) and "VALID" in st.targets[0].id.upper():
            try:
                v = set(ast.literal_eval(st.value.args[0] if isinstance(st.value, ast.Call) else st.value))
            except (ValueError, AttributeError, IndexError):
                rep.undec("GPX property names")
                return
            where = "%s:%d" % (ctx.m.rel, st.lineno)
            for n in sorted(GPXNAMES - v):
                rep.bad("structure", "property name %s" % n, "the GPX property %s is treated as an extension" % n, where)
            for n in sorted(v - GPXNAMES):
                rep.bad("structure", "property name %s" % n, "%s is not a GPX property" % n, where)
            if v == GPXNAMES:
                rep.ok("the %d property names are GPX's" % len(v), where)


def check(repo=None):
    rep = Report("C15", RULE)
    rep.minimum = 4
    rep.assumptions = ["Element.append adds a child after the earlier ones; findall returns direct children in document order"]
    p = Program(repo, pyx=False)
    if MOD not in p.modules:
        rep.undec("no GPX module")
        return rep
    ctx = Ctx(rep, p)

    def guard(what, fn, *a):
        try:
            fn(*a)
        except Exception as e:
            rep.undec("%s: %s %s" % (what, type(e).__name__, str(e)[:80]))
    guard("as_string", Writer(ctx).run)
    guard("fromfile", Reader(ctx).run)
    for n in ("add_waypoint", "add_track", "add_route"):
        guard(n, Adder(ctx).run, n)
    guard("geometry readers", geometries, ctx)
    guard("constructor", constructor, ctx)
    guard("fresh", fresh, ctx)
    guard("names", names, ctx)
    return rep
