"""Run by the project's own interpreter (it has Cython): parses .pyx files with
Cython's parser and dumps the syntax trees as JSON in terms of Python's ast."""
from __future__ import print_function
import json
import sys

from Cython.Compiler.TreeFragment import parse_from_strings
from Cython.Compiler import Errors, Options
from Cython.Compiler.Main import CompilationOptions, default_options, Context
from Cython.Compiler.Scanning import FileSourceDescriptor, PyrexScanner
from Cython.Compiler import Parsing
from Cython.Compiler.Symtab import ModuleScope

BIN = {"+": "Add", "-": "Sub", "*": "Mult", "/": "Div", "//": "FloorDiv", "%": "Mod", "**": "Pow",
       "<<": "LShift", ">>": "RShift", "&": "BitAnd", "|": "BitOr", "^": "BitXor", "@": "MatMult"}
CMP = {"<": "Lt", ">": "Gt", "<=": "LtE", ">=": "GtE", "==": "Eq", "!=": "NotEq", "in": "In", "not_in": "NotIn",
       "is": "Is", "is_not": "IsNot", "<>": "NotEq"}
LOAD = {"_": "Load"}
STORE = {"_": "Store"}


def line(n):
    try:
        return n.pos[1]
    except Exception:
        return 0


def N(kind, n, **kw):
    kw["_"] = kind
    if n is not None:
        kw["lineno"] = line(n)
    return kw


def name(s, n, ctx=LOAD):
    return N("Name", n, id=s, ctx=ctx)


def decl_name(d):
    while d is not None and not hasattr(d, "name"):
        d = d.base
    return d.name if d is not None else ""


def decl_ptr(d):
    k = 0
    while d is not None and not hasattr(d, "name"):
        if type(d).__name__ == "CPtrDeclaratorNode":
            k += 1
        elif type(d).__name__ == "CArrayDeclaratorNode":
            k += 1
        d = d.base
    return k


def type_name(t):
    for a in ("name",):
        if getattr(t, a, None):
            return str(getattr(t, a))
    b = getattr(t, "base_type", None)
    if b is not None:
        return type_name(b)
    return type(t).__name__


class Conv(object):
    def expr(self, n, ctx=LOAD):
        if n is None:
            return None
        k = type(n).__name__
        m = getattr(self, "e_" + k, None)
        if m is not None:
            return m(n, ctx)
        if hasattr(n, "operand1") and hasattr(n, "operand2") and getattr(n, "operator", None) in BIN:
            return N("BinOp", n, left=self.expr(n.operand1), op={"_": BIN[n.operator]}, right=self.expr(n.operand2))
        return N("Call", n, func=name("__unsupported__", n), args=[N("Constant", n, value=k)], keywords=[])

    def e_NameNode(self, n, ctx):
        return name(str(n.name), n, ctx)

    def e_IntNode(self, n, ctx):
        s = str(n.value).rstrip("uUlL")
        try:
            v = int(s, 0)
        except ValueError:
            v = int(s)
        return N("Constant", n, value=v)

    def e_FloatNode(self, n, ctx):
        return N("Constant", n, value=float(n.value))

    def e_str(self, n, ctx):
        return N("Constant", n, value=str(n.value))
    e_UnicodeNode = e_StringNode = e_BytesNode = e_IdentifierStringNode = e_CharNode = e_str

    def e_NoneNode(self, n, ctx):
        return N("Constant", n, value=None)

    def e_NullNode(self, n, ctx):
        return N("Constant", n, value=None)

    def e_BoolNode(self, n, ctx):
        return N("Constant", n, value=bool(n.value))

    def e_EllipsisNode(self, n, ctx):
        return name("Ellipsis", n)

    def e_AttributeNode(self, n, ctx):
        return N("Attribute", n, value=self.expr(n.obj), attr=str(n.attribute), ctx=ctx)

    def e_IndexNode(self, n, ctx):
        return N("Subscript", n, value=self.expr(n.base), slice=self.expr(n.index), ctx=ctx)

    def e_SliceIndexNode(self, n, ctx):
        return N("Subscript", n, value=self.expr(n.base),
                 slice=N("Slice", n, lower=self.expr(n.start), upper=self.expr(n.stop), step=None), ctx=ctx)

    def e_SliceNode(self, n, ctx):
        def f(x):
            e = self.expr(x)
            return None if e is not None and e["_"] == "Constant" and e.get("value", 0) is None else e
        return N("Slice", n, lower=f(n.start), upper=f(n.stop), step=f(n.step))

    def e_SimpleCallNode(self, n, ctx):
        return N("Call", n, func=self.expr(n.function), args=[self.expr(a) for a in n.args], keywords=[])

    def e_GeneralCallNode(self, n, ctx):
        args, kws = [], []
        p = n.positional_args
        args = self.pos(p)
        kw = n.keyword_args
        if kw is not None:
            kws = self.kw(kw)
        return N("Call", n, func=self.expr(n.function), args=args, keywords=kws)

    def pos(self, p):
        if hasattr(p, "args"):
            return [self.expr(a) for a in p.args]
        k = type(p).__name__
        if k == "AsTupleNode":
            return [N("Starred", p, value=self.expr(p.arg), ctx=LOAD)]
        if k == "MergedSequenceNode":
            return sum([self.pos(a) for a in p.args], [])
        if k == "AddNode":
            return self.pos(p.operand1) + self.pos(p.operand2)
        return [N("Starred", p, value=self.expr(p), ctx=LOAD)]

    def kw(self, kw):
        if hasattr(kw, "key_value_pairs"):
            return [dict(_="keyword", arg=str(i.key.value), value=self.expr(i.value)) for i in kw.key_value_pairs]
        if type(kw).__name__ == "MergedDictNode":
            return sum([self.kw(a) for a in kw.keyword_args], [])
        return [dict(_="keyword", arg=None, value=self.expr(kw))]

    def e_TupleNode(self, n, ctx):
        return N("Tuple", n, elts=[self.expr(a, ctx) for a in n.args], ctx=ctx)

    def e_ListNode(self, n, ctx):
        return N("List", n, elts=[self.expr(a, ctx) for a in n.args], ctx=ctx)

    def e_SetNode(self, n, ctx):
        return N("Set", n, elts=[self.expr(a) for a in n.args])

    def e_DictNode(self, n, ctx):
        return N("Dict", n, keys=[self.expr(i.key) for i in n.key_value_pairs],
                 values=[self.expr(i.value) for i in n.key_value_pairs])

    def e_StarredUnpackingNode(self, n, ctx):
        return N("Starred", n, value=self.expr(n.target, ctx), ctx=ctx)

    def e_UnaryMinusNode(self, n, ctx):
        return N("UnaryOp", n, op={"_": "USub"}, operand=self.expr(n.operand))

    def e_UnaryPlusNode(self, n, ctx):
        return N("UnaryOp", n, op={"_": "UAdd"}, operand=self.expr(n.operand))

    def e_TildeNode(self, n, ctx):
        return N("UnaryOp", n, op={"_": "Invert"}, operand=self.expr(n.operand))

    def e_NotNode(self, n, ctx):
        return N("UnaryOp", n, op={"_": "Not"}, operand=self.expr(n.operand))

    def e_BoolBinopNode(self, n, ctx):
        return N("BoolOp", n, op={"_": "And" if n.operator == "and" else "Or"},
                 values=[self.expr(n.operand1), self.expr(n.operand2)])

    def e_PrimaryCmpNode(self, n, ctx):
        ops, comps = [{"_": CMP[n.operator]}], [self.expr(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append({"_": CMP[c.operator]})
            comps.append(self.expr(c.operand2))
            c = c.cascade
        return N("Compare", n, left=self.expr(n.operand1), ops=ops, comparators=comps)

    def e_CondExprNode(self, n, ctx):
        return N("IfExp", n, test=self.expr(n.test), body=self.expr(n.true_val), orelse=self.expr(n.false_val))

    def e_TypecastNode(self, n, ctx):
        t = type_name(n.base_type) if n.base_type is not None else str(n.type)
        t += "*" * decl_ptr(n.declarator) if n.declarator is not None else ""
        return N("Call", n, func=name("__cast__", n), args=[N("Constant", n, value=t), self.expr(n.operand)], keywords=[])

    def e_AmpersandNode(self, n, ctx):
        if type(n.operand).__name__ == "NameNode":
            self.addressed.append(str(n.operand.name))
        return N("Call", n, func=name("__addr__", n), args=[self.expr(n.operand)], keywords=[])

    def e_SizeofTypeNode(self, n, ctx):
        return N("Call", n, func=name("__sizeof__", n), args=[N("Constant", n, value=type_name(n.base_type))], keywords=[])

    def e_SizeofVarNode(self, n, ctx):
        return N("Call", n, func=name("__sizeof__", n), args=[self.expr(n.operand)], keywords=[])

    def gens(self, loop):
        """-> (generators, leaf)"""
        gens = []
        cur = loop
        while True:
            k = type(cur).__name__
            if k == "ForInStatNode":
                it = cur.iterator
                seq = it.sequence if hasattr(it, "sequence") else it
                gens.append(dict(_="comprehension", target=self.expr(cur.target, STORE), iter=self.expr(seq),
                                 ifs=[], is_async=0))
                cur = cur.body
            elif k == "IfStatNode":
                gens[-1]["ifs"].append(self.expr(cur.if_clauses[0].condition))
                cur = cur.if_clauses[0].body
            elif k == "StatListNode" and len(cur.stats) == 1:
                cur = cur.stats[0]
            else:
                return gens, cur

    def e_ComprehensionNode(self, n, ctx):
        gens, leaf = self.gens(n.loop)
        a = n.append
        if type(a).__name__ == "DictComprehensionAppendNode":
            return N("DictComp", n, key=self.expr(a.key_expr), value=self.expr(a.value_expr), generators=gens)
        t = str(getattr(n.type, "name", "list"))
        return N("SetComp" if t == "set" else "ListComp", n, elt=self.expr(a.expr), generators=gens)

    def e_GeneratorExpressionNode(self, n, ctx):
        gens, leaf = self.gens(n.loop)
        y = leaf
        if hasattr(y, "expr"):
            y = y.expr
        v = y.arg if hasattr(y, "arg") else y
        return N("GeneratorExp", n, elt=self.expr(v), generators=gens)

    def e_InlinedGeneratorExpressionNode(self, n, ctx):
        return self.e_GeneratorExpressionNode(n.gen, ctx)

    def e_YieldExprNode(self, n, ctx):
        return N("Yield", n, value=self.expr(n.arg))

    def e_LambdaNode(self, n, ctx):
        return N("Lambda", n, args=self.args(n.args, n.star_arg, n.starstar_arg), body=self.expr(n.result_expr))

    def e_ImportNode(self, n, ctx):
        return name("__import__", n)

    # ---------------------------------------------------------------- statements
    def body(self, n):
        if n is None:
            return []
        k = type(n).__name__
        if k == "StatListNode":
            out = []
            for s in n.stats:
                out.extend(self.stmt(s))
            return out
        return self.stmt(n)

    def block(self, n):
        return self.body(n) or [N("Pass", n)]

    def stmt(self, n):
        k = type(n).__name__
        m = getattr(self, "s_" + k, None)
        if m is None:
            return [N("Expr", n, value=N("Call", n, func=name("__unsupported__", n),
                                         args=[N("Constant", n, value=k)], keywords=[]))]
        return m(n)

    def s_StatListNode(self, n):
        return self.body(n)

    def s_PassStatNode(self, n):
        return [N("Pass", n)]

    def outs(self, n, target=None):
        """variables whose address is passed to a call get the value the call leaves there"""
        args = [N("Name", n, id=target, ctx={"_": "Load"})] if target else []
        out, self.addressed = self.addressed, []
        return [N("Assign", n, targets=[N("Name", n, id=v, ctx={"_": "Store"})],
                  value=N("Call", n, func=name("__out__", n), args=[N("Constant", n, value=v)] + args, keywords=[])) for v in out]

    addressed = []

    def s_ExprStatNode(self, n):
        self.addressed = []
        return [N("Expr", n, value=self.expr(n.expr))] + self.outs(n)

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == "ImportNode":
            mod = str(n.rhs.module_name.value)
            lv = n.rhs.level if n.rhs.level not in (None, -1) else 0
            if lv and lv > 0:
                return [N("ImportFrom", n, module=None, names=[dict(_="alias", name=mod, asname=str(n.lhs.name))], level=lv)]
            return [N("Import", n, names=[dict(_="alias", name=mod, asname=str(n.lhs.name))])]
        self.addressed = []
        lhs = self.expr(n.lhs, STORE)
        return [N("Assign", n, targets=[lhs], value=self.expr(n.rhs))] + self.outs(n, n.lhs.name if type(n.lhs).__name__ == "NameNode" else None)

    def s_CascadedAssignmentNode(self, n):
        return [N("Assign", n, targets=[self.expr(l, STORE) for l in n.lhs_list], value=self.expr(n.rhs))]

    def s_InPlaceAssignmentNode(self, n):
        return [N("AugAssign", n, target=self.expr(n.lhs, STORE), op={"_": BIN[n.operator]}, value=self.expr(n.rhs))]

    def s_FromImportStatNode(self, n):
        mod = str(n.module.module_name.value)
        lv = n.module.level if n.module.level not in (None, -1) else 0
        return [N("ImportFrom", n, module=mod or None,
                  names=[dict(_="alias", name=str(a), asname=str(t.name) if str(t.name) != str(a) else None) for a, t in n.items],
                  level=max(lv or 0, 0))]

    def s_CImportStatNode(self, n):
        return [N("Import", n, names=[dict(_="alias", name=str(n.module_name), asname=str(n.as_name) if n.as_name else None)])]

    def s_FromCImportStatNode(self, n):
        names = []
        for it in n.imported_names:
            nm, asn = it[1], it[2]
            names.append(dict(_="alias", name=str(nm), asname=str(asn) if asn else None))
        lv = getattr(n, "relative_level", None)
        return [N("ImportFrom", n, module=str(n.module_name) or None, names=names, level=max(lv or 0, 0))]

    def s_CVarDefNode(self, n):
        out = []
        t = type_name(n.base_type)
        for d in n.declarators:
            if type(d).__name__ == "CFuncDeclaratorNode":
                continue
            nm = decl_name(d)
            dd = d
            default = None
            while dd is not None:
                if getattr(dd, "default", None) is not None:
                    default = dd.default
                    break
                dd = getattr(dd, "base", None)
            tt = t + "*" * decl_ptr(d)
            if nm:
                out.append(N("AnnAssign", n, target=name(str(nm), n, STORE), annotation=N("Constant", n, value=tt),
                             value=self.expr(default), simple=1))
        return out or [N("Pass", n)]

    def s_CDefExternNode(self, n):
        return []

    def s_CTypeDefNode(self, n):
        return []
    s_CStructOrUnionDefNode = s_CEnumDefNode = s_CTypeDefNode

    def s_IfStatNode(self, n):
        orelse = self.body(n.else_clause) if n.else_clause is not None else []
        for c in reversed(n.if_clauses):
            orelse = [N("If", c, test=self.expr(c.condition), body=self.block(c.body), orelse=orelse)]
        return orelse

    def s_ForInStatNode(self, n):
        it = n.iterator
        seq = it.sequence if hasattr(it, "sequence") else it
        return [N("For", n, target=self.expr(n.target, STORE), iter=self.expr(seq), body=self.block(n.body),
                  orelse=self.body(n.else_clause))]

    def s_WhileStatNode(self, n):
        return [N("While", n, test=self.expr(n.condition), body=self.block(n.body), orelse=self.body(n.else_clause))]

    def s_ReturnStatNode(self, n):
        return [N("Return", n, value=self.expr(n.value))]

    def s_RaiseStatNode(self, n):
        return [N("Raise", n, exc=self.expr(n.exc_type), cause=None)]

    def s_BreakStatNode(self, n):
        return [N("Break", n)]

    def s_ContinueStatNode(self, n):
        return [N("Continue", n)]

    def s_AssertStatNode(self, n):
        c = getattr(n, "cond", None) or getattr(n, "condition", None)
        return [N("Assert", n, test=self.expr(c), msg=None)]

    def s_DelStatNode(self, n):
        return [N("Delete", n, targets=[self.expr(a) for a in n.args])]

    def s_GlobalNode(self, n):
        return [N("Global", n, names=[str(x) for x in n.names])]

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            pat = c.pattern
            t = None
            if pat:
                es = [self.expr(p) for p in pat]
                t = es[0] if len(es) == 1 else N("Tuple", c, elts=es, ctx=LOAD)
            hs.append(N("ExceptHandler", c, type=t, name=str(c.target.name) if c.target is not None else None,
                        body=self.block(c.body)))
        return [N("Try", n, body=self.block(n.body), handlers=hs, orelse=self.body(n.else_clause), finalbody=[])]

    def s_TryFinallyStatNode(self, n):
        return [N("Try", n, body=self.block(n.body), handlers=[], orelse=[], finalbody=self.block(n.finally_clause))]

    def args(self, args, star=None, starstar=None):
        out, defaults, kwonly, kwd = [], [], [], []
        for a in args:
            nm = decl_name(a.declarator)
            t = type_name(a.base_type) if a.base_type is not None else None
            if not nm:
                nm, t = t, None
            tt = t + "*" * decl_ptr(a.declarator) if t else None
            ad = dict(_="arg", arg=str(nm), annotation=N("Constant", a, value=tt) if tt else None, lineno=line(a))
            if getattr(a, "kw_only", False):
                kwonly.append(ad)
                kwd.append(self.expr(a.default))
            else:
                out.append(ad)
                if a.default is not None:
                    defaults.append(self.expr(a.default))
        sa = dict(_="arg", arg=str(star.name), annotation=None) if star is not None and star.name else None
        ssa = dict(_="arg", arg=str(starstar.name), annotation=None) if starstar is not None else None
        return dict(_="arguments", posonlyargs=[], args=out, vararg=sa, kwonlyargs=kwonly, kw_defaults=kwd,
                    kwarg=ssa, defaults=defaults)

    def fdef(self, n, nm, args, body, decorators, returns):
        return N("FunctionDef", n, name=str(nm), args=args, body=body, decorator_list=decorators,
                 returns=returns, type_params=[])

    def s_DefNode(self, n):
        decs = [self.expr(d.decorator) for d in (n.decorators or [])]
        return [self.fdef(n, n.name, self.args(n.args, n.star_arg, n.starstar_arg), self.block(n.body), decs, None)]

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != "CFuncDeclaratorNode":
            d = d.base
        nm = decl_name(d.base)
        rt = type_name(n.base_type) + "*" * decl_ptr(n.declarator if n.declarator is not d else d.base)
        return [self.fdef(n, nm, self.args(d.args), self.block(n.body), [], N("Constant", n, value=rt))]

    def s_CClassDefNode(self, n):
        return [N("ClassDef", n, name=str(n.class_name), bases=[], keywords=[], body=self.block(n.body),
                  decorator_list=[], type_params=[])]

    def s_PyClassDefNode(self, n):
        bases = []
        if getattr(n, "bases", None) is not None and hasattr(n.bases, "args"):
            bases = [self.expr(b) for b in n.bases.args]
        return [N("ClassDef", n, name=str(n.name), bases=bases, keywords=[], body=self.block(n.body),
                  decorator_list=[], type_params=[])]


def parse(path):
    options = CompilationOptions(default_options)
    context = Context(["."], {}, options=options) if _ctx_ok() else options.create_context()
    sd = FileSourceDescriptor(path)
    scope = context.find_module("kstat_tmp", pos=(sd, 1, 0), need_pxd=0)
    Errors.init_thread() if hasattr(Errors, "init_thread") else None
    from Cython import Utils
    f = Utils.open_source_file(path)
    try:
        s = PyrexScanner(f, sd, source_encoding=f.encoding, scope=scope, context=context)
        tree = Parsing.p_module(s, 0, "kstat_tmp")
    finally:
        f.close()
    return tree


def _ctx_ok():
    return True


def main():
    out = {}
    for p in sys.argv[1:]:
        tree = parse(p)
        c = Conv()
        out[p] = dict(_="Module", body=c.body(tree.body), type_ignores=[])
    json.dump(out, sys.stdout)


if __name__ == "__main__":
    main()
