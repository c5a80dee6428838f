"""Translate Cython sources to Python syntax trees.

The source is parsed by the installed Cython compiler's own parser (no
compilation, no execution).  C-only syntax is kept as marker calls:
`<T>x` becomes `__cast__("T", x)`, `&x` becomes `__addr__(x)` and
`sizeof(...)` becomes `__sizeof__(...)`.  Declared C types are stored on each
FunctionDef as `_ctypes` (name -> type string) and on arguments as their
annotation.
"""
import ast


def _pos(n):
    try:
        return n.pos[1]
    except Exception:
        return 0


BIN = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv,
       "%": ast.Mod, "**": ast.Pow, "<<": ast.LShift, ">>": ast.RShift, "&": ast.BitAnd,
       "|": ast.BitOr, "^": ast.BitXor, "@": ast.MatMult}
CMP = {"==": ast.Eq, "!=": ast.NotEq, "<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE,
       "in": ast.In, "not_in": ast.NotIn, "is": ast.Is, "is_not": ast.IsNot}


class Tr:
    def __init__(self, modname):
        self.modname = modname
        self.ctypes = [{}]

    # -- types --------------------------------------------------------------
    def type_str(self, t):
        k = type(t).__name__
        if k == "CSimpleBaseTypeNode":
            if t.name is None:
                return ""
            s = ".".join(list(t.module_path or []) + [t.name])
            if getattr(t, "signed", 1) == 0:
                s = "unsigned " + s
            if getattr(t, "longness", 0):
                s = "long " * t.longness + s
            return s
        if k in ("CConstTypeNode", "CConstOrVolatileTypeNode"):
            return "const " + self.type_str(t.base_type)
        if k == "MemoryViewSliceTypeNode":
            axes = []
            for a in t.axes:
                axes.append(":" + (":1" if not _is_none(a.step) else ""))
            return self.type_str(t.base_type_node) + "[" + ",".join(axes) + "]"
        if k == "TemplatedTypeNode":
            pos = [self.targ(x) for x in t.positional_args]
            kws = []
            if t.keyword_args is not None:
                for it in t.keyword_args.key_value_pairs:
                    kws.append(f"{it.key.value}={getattr(it.value, 'value', '?')}")
            return self.type_str(t.base_type_node) + "[" + ",".join(pos + kws) + "]"
        if k == "CComplexBaseTypeNode":
            return self.type_str(t.base_type) + self.decl_suffix(t.declarator)
        return k

    def targ(self, x):
        if type(x).__name__ == "AttributeNode":
            return f"{self.targ(x.obj)}.{x.attribute}"
        try:
            s = self.type_str(x)
        except Exception:
            s = ""
        if not s or s == type(x).__name__:
            s = getattr(x, "name", None) or getattr(x, "value", "?")
        return s

    def decl_suffix(self, d):
        k = type(d).__name__
        if k == "CPtrDeclaratorNode":
            return "*" + self.decl_suffix(d.base)
        if k == "CReferenceDeclaratorNode":
            return "&" + self.decl_suffix(d.base)
        if k == "CArrayDeclaratorNode":
            return self.decl_suffix(d.base) + "[]"
        return ""

    def decl_name(self, d):
        while not hasattr(d, "name"):
            d = d.base
        return d.name

    def decl_default(self, d):
        while True:
            if getattr(d, "default", None) is not None:
                return d.default
            if hasattr(d, "base"):
                d = d.base
            else:
                return None

    # -- helpers -------------------------------------------------------------
    def at(self, new, n):
        for x in ast.walk(new):
            if "lineno" in x._attributes and not hasattr(x, "lineno"):
                x.lineno = x.end_lineno = _pos(n)
                x.col_offset = x.end_col_offset = 0
        return new

    def body(self, n):
        out = self.stats(n)
        return out or [self.at(ast.Pass(), n)]

    def stats(self, n):
        if n is None:
            return []
        k = type(n).__name__
        if k == "StatListNode":
            out = []
            for s in n.stats:
                out += self.stats(s)
            return out
        r = getattr(self, "s_" + k, None)
        if r is None:
            raise NotImplementedError("statement " + k)
        res = r(n)
        if res is None:
            return []
        if not isinstance(res, list):
            res = [res]
        return [self.at(x, n) for x in res]

    def e(self, n, store=False):
        k = type(n).__name__
        r = getattr(self, "x_" + k, None)
        if r is None:
            raise NotImplementedError("expression " + k)
        res = r(n)
        self.at(res, n)
        if store:
            for x in ast.walk(res):
                pass
            self.set_store(res)
        return res

    def set_store(self, t):
        if isinstance(t, (ast.Tuple, ast.List)):
            t.ctx = ast.Store()
            for x in t.elts:
                self.set_store(x)
        elif hasattr(t, "ctx"):
            t.ctx = ast.Store()

    # -- statements -----------------------------------------------------------
    def s_PassStatNode(self, n): return ast.Pass()
    def s_BreakStatNode(self, n): return ast.Break()
    def s_ContinueStatNode(self, n): return ast.Continue()
    def s_CDefExternNode(self, n): return None
    def s_CTypeDefNode(self, n): return None
    def s_CEnumDefNode(self, n): return None
    def s_FusedTypeNode(self, n): return None
    def s_CStructOrUnionDefNode(self, n): return None

    def s_ExprStatNode(self, n):
        return ast.Expr(value=self.e(n.expr))

    def s_SingleAssignmentNode(self, n):
        if type(n.rhs).__name__ == "ImportNode":
            nm = n.rhs.module_name.value
            lhs = n.lhs.name
            if lhs == nm.split(".")[0]:
                return ast.Import(names=[ast.alias(name=nm, asname=None)])
            return ast.Import(names=[ast.alias(name=nm, asname=lhs)])
        rhs = n.rhs
        if type(rhs).__name__ == "Py3ClassNode":
            return None
        return ast.Assign(targets=[self.e(n.lhs, True)], value=self.e(rhs))

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign(targets=[self.e(x, True) for x in n.lhs_list], value=self.e(n.rhs))

    def s_InPlaceAssignmentNode(self, n):
        return ast.AugAssign(target=self.e(n.lhs, True), op=BIN[n.operator](), value=self.e(n.rhs))

    def s_CVarDefNode(self, n):
        out = []
        t = self.type_str(n.base_type)
        for d in n.declarators:
            nm = self.decl_name(d)
            if type(d).__name__ == "CFuncDeclaratorNode":
                continue
            self.ctypes[-1][nm] = t + self.decl_suffix(d)
            default = self.decl_default(d)
            if default is not None:
                a = ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=self.e(default))
                a._ctype = t + self.decl_suffix(d)
                out.append(self.at(a, d))
        return out

    def s_IfStatNode(self, n):
        cur = None
        orelse = self.stats(n.else_clause) if n.else_clause is not None else []
        for c in reversed(n.if_clauses):
            cur = ast.If(test=self.e(c.condition), body=self.body(c.body), orelse=orelse)
            self.at(cur, c)
            orelse = [cur]
        return cur

    def s_ForInStatNode(self, n):
        it = n.iterator
        seq = it.sequence
        return ast.For(target=self.e(n.target, True), iter=self.e(seq), body=self.body(n.body),
                       orelse=self.stats(n.else_clause) if n.else_clause is not None else [])

    def s_WhileStatNode(self, n):
        return ast.While(test=self.e(n.condition), body=self.body(n.body),
                         orelse=self.stats(n.else_clause) if n.else_clause is not None else [])

    def s_ReturnStatNode(self, n):
        return ast.Return(value=self.e(n.value) if n.value is not None else None)

    def s_RaiseStatNode(self, n):
        return ast.Raise(exc=self.e(n.exc_type) if n.exc_type is not None else None, cause=None)

    def s_AssertStatNode(self, n):
        return ast.Assert(test=self.e(n.cond if hasattr(n, "cond") else n.condition),
                          msg=self.e(n.value) if getattr(n, "value", None) is not None else None)

    def s_DelStatNode(self, n):
        return ast.Delete(targets=[self.e(a, True) for a in n.args])

    def s_FromImportStatNode(self, n):
        m = n.module
        level = max(0, m.level or 0) if (m.level or 0) > 0 else 0
        names = []
        for nm, target in n.items:
            tid = getattr(target, "name", nm)
            names.append(ast.alias(name=nm, asname=None if tid == nm else tid))
        return ast.ImportFrom(module=m.module_name.value or None, names=names, level=level)

    def s_FromCImportStatNode(self, n):
        names = [ast.alias(name=x[1], asname=x[2] if len(x) > 2 else None) for x in n.imported_names]
        lv = n.relative_level or 0
        return ast.ImportFrom(module=n.module_name or None, names=names, level=max(lv, 0))

    def s_CImportStatNode(self, n):
        return ast.Import(names=[ast.alias(name=n.module_name, asname=n.as_name)])

    def s_GlobalNode(self, n):
        return ast.Global(names=list(n.names))

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            ty = None
            if c.pattern:
                ty = self.e(c.pattern[0]) if len(c.pattern) == 1 else ast.Tuple(
                    elts=[self.e(p) for p in c.pattern], ctx=ast.Load())
            nm = getattr(c.target, "name", None) if c.target is not None else None
            hs.append(self.at(ast.ExceptHandler(type=ty, name=nm, body=self.body(c.body)), c))
        return ast.Try(body=self.body(n.body), handlers=hs,
                       orelse=self.stats(n.else_clause) if n.else_clause is not None else [], finalbody=[])

    def s_TryFinallyStatNode(self, n):
        return ast.Try(body=self.body(n.body), handlers=[], orelse=[], finalbody=self.body(n.finally_clause))

    def s_GILStatNode(self, n):
        return self.stats(n.body)

    def s_WithStatNode(self, n):
        t = self.e(n.target, True) if n.target is not None else None
        return ast.With(items=[ast.withitem(context_expr=self.e(n.manager), optional_vars=t)], body=self.body(n.body))

    def args_of(self, arglist, star, starstar, n):
        args, defaults, kwonly, kwdef = [], [], [], []
        for a in arglist:
            t = self.type_str(a.base_type)
            d = a.declarator
            nm = self.decl_name(d)
            if nm == "" and type(a.base_type).__name__ == "CSimpleBaseTypeNode":
                nm, t = a.base_type.name, ""
            t = t + self.decl_suffix(d) if t else t
            ann = None
            if getattr(a, "annotation", None) is not None:
                an = a.annotation
                try:
                    ann = self.e(getattr(an, "expr", an))
                except NotImplementedError:
                    ann = None
            if t:
                self.ctypes[-1][nm] = t
                ann = ast.Constant(value="ctype:" + t)
            g = ast.arg(arg=nm, annotation=ann)
            self.at(g, a)
            dv = self.e(a.default) if a.default is not None else None
            if getattr(a, "kw_only", 0):
                kwonly.append(g)
                kwdef.append(dv)
            else:
                args.append(g)
                if dv is not None:
                    defaults.append(dv)
        va = ast.arg(arg=star.name, annotation=None) if star is not None and getattr(star, "name", "") else None
        kw = ast.arg(arg=starstar.name, annotation=None) if starstar is not None else None
        return ast.arguments(posonlyargs=[], args=args, vararg=va, kwonlyargs=kwonly,
                             kw_defaults=kwdef, kwarg=kw, defaults=defaults)

    def s_DefNode(self, n):
        self.ctypes.append({})
        args = self.args_of(n.args, n.star_arg, n.starstar_arg, n)
        body = self.body(n.body)
        if getattr(n, "doc", None):
            body = [self.at(ast.Expr(value=ast.Constant(value=str(n.doc))), n)] + body
        f = ast.FunctionDef(name=n.name, args=args, body=body,
                            decorator_list=[self.e(d.decorator) for d in (n.decorators or [])],
                            returns=None, type_comment=None, type_params=[])
        f._ctypes = self.ctypes.pop()
        f._cdef = False
        f._nogil = False
        return f

    def s_CFuncDefNode(self, n):
        self.ctypes.append({})
        d = n.declarator
        ret = self.type_str(n.base_type)
        while type(d).__name__ != "CFuncDeclaratorNode":
            ret += "*"
            d = d.base
        args = self.args_of(d.args, None, None, n)
        body = self.body(n.body)
        f = ast.FunctionDef(name=self.decl_name(d), args=args, body=body,
                            decorator_list=[self.e(x.decorator) for x in (n.decorators or [])],
                            returns=None, type_comment=None, type_params=[])
        f._ctypes = self.ctypes.pop()
        f._cdef = True
        f._ret = ret
        f._nogil = bool(getattr(d, "nogil", False) or getattr(d, "with_gil", False))
        f._except = (d.exception_value is not None) or bool(d.exception_check)
        return f

    def s_PyClassDefNode(self, n):
        bases = [self.e(b) for b in n.bases.args] if getattr(n, "bases", None) is not None else []
        return ast.ClassDef(name=n.name, bases=bases, keywords=[], body=self.body(n.body),
                            decorator_list=[self.e(d.decorator) for d in (n.decorators or [])], type_params=[])

    def s_CClassDefNode(self, n):
        bases = [self.e(b) for b in n.bases.args] if getattr(n, "bases", None) is not None else []
        return ast.ClassDef(name=n.class_name, bases=bases, keywords=[], body=self.body(n.body),
                            decorator_list=[], type_params=[])

    # -- expressions ------------------------------------------------------------
    def x_NameNode(self, n): return ast.Name(id=n.name, ctx=ast.Load())
    def x_AttributeNode(self, n):
        return ast.Attribute(value=self.e(n.obj), attr=n.attribute, ctx=ast.Load())

    def x_IntNode(self, n):
        s = str(n.value)
        s2 = s.rstrip("uUlL")
        try:
            return ast.Constant(value=int(s2, 0))
        except ValueError:
            return ast.Constant(value=s)

    def x_FloatNode(self, n): return ast.Constant(value=float(n.value))
    def x_StringNode(self, n): return ast.Constant(value=str(n.value))
    def x_UnicodeNode(self, n): return ast.Constant(value=str(n.value))
    def x_BytesNode(self, n): return ast.Constant(value=bytes(n.value))
    def x_IdentifierStringNode(self, n): return ast.Constant(value=str(n.value))
    def x_BoolNode(self, n): return ast.Constant(value=bool(n.value))
    def x_NoneNode(self, n): return ast.Constant(value=None)
    def x_NullNode(self, n): return ast.Constant(value=None)
    def x_EllipsisNode(self, n): return ast.Constant(value=Ellipsis)
    def x_TupleNode(self, n): return ast.Tuple(elts=[self.e(a) for a in n.args], ctx=ast.Load())
    def x_ListNode(self, n): return ast.List(elts=[self.e(a) for a in n.args], ctx=ast.Load())
    def x_SetNode(self, n): return ast.Set(elts=[self.e(a) for a in n.args])
    def x_AsTupleNode(self, n):
        return self.e(n.arg)

    def x_DictNode(self, n):
        return ast.Dict(keys=[self.e(i.key) for i in n.key_value_pairs],
                        values=[self.e(i.value) for i in n.key_value_pairs])

    def x_StarredUnpackingNode(self, n): return ast.Starred(value=self.e(n.target), ctx=ast.Load())

    def x_SimpleCallNode(self, n):
        return ast.Call(func=self.e(n.function), args=[self.e(a) for a in n.args], keywords=[])

    def x_GeneralCallNode(self, n):
        args = []
        pa = n.positional_args
        args = self.posargs(pa)
        kws = []
        ka = n.keyword_args
        if ka is not None:
            if type(ka).__name__ == "DictNode":
                for it in ka.key_value_pairs:
                    kws.append(ast.keyword(arg=str(it.key.value), value=self.e(it.value)))
            elif type(ka).__name__ == "MergedDictNode":
                for sub in ka.keyword_args:
                    if type(sub).__name__ == "DictNode":
                        for it in sub.key_value_pairs:
                            kws.append(ast.keyword(arg=str(it.key.value), value=self.e(it.value)))
                    else:
                        kws.append(ast.keyword(arg=None, value=self.e(sub)))
            else:
                kws.append(ast.keyword(arg=None, value=self.e(ka)))
        for k in kws:
            self.at(k, n)
        return ast.Call(func=self.e(n.function), args=args, keywords=kws)

    def posargs(self, pa):
        k = type(pa).__name__
        if k == "TupleNode":
            return [self.e(a) for a in pa.args]
        if k == "AsTupleNode":
            return [ast.Starred(value=self.e(pa.arg), ctx=ast.Load())]
        if k == "AddNode":
            return self.posargs(pa.operand1) + self.posargs(pa.operand2)
        return [ast.Starred(value=self.e(pa), ctx=ast.Load())]

    def x_IndexNode(self, n):
        idx = n.index
        return ast.Subscript(value=self.e(n.base), slice=self.e(idx), ctx=ast.Load())

    def x_SliceNode(self, n):
        f = lambda v: None if _is_none(v) else self.e(v)
        return ast.Slice(lower=f(n.start), upper=f(n.stop), step=f(n.step))

    def x_SliceIndexNode(self, n):
        f = lambda v: None if _is_none(v) else self.e(v)
        return ast.Subscript(value=self.e(n.base), slice=ast.Slice(lower=f(n.start), upper=f(n.stop), step=None),
                             ctx=ast.Load())

    def binop(self, n):
        return ast.BinOp(left=self.e(n.operand1), op=BIN[n.operator](), right=self.e(n.operand2))

    x_AddNode = x_SubNode = x_MulNode = x_DivNode = x_ModNode = x_PowNode = x_IntBinopNode = x_MatMultNode = binop
    x_BitwiseOrNode = binop

    def x_BoolBinopNode(self, n):
        op = ast.And() if n.operator == "and" else ast.Or()
        return ast.BoolOp(op=op, values=[self.e(n.operand1), self.e(n.operand2)])

    def x_NotNode(self, n): return ast.UnaryOp(op=ast.Not(), operand=self.e(n.operand))
    def x_UnaryMinusNode(self, n): return ast.UnaryOp(op=ast.USub(), operand=self.e(n.operand))
    def x_UnaryPlusNode(self, n): return ast.UnaryOp(op=ast.UAdd(), operand=self.e(n.operand))
    def x_TildeNode(self, n): return ast.UnaryOp(op=ast.Invert(), operand=self.e(n.operand))

    def x_PrimaryCmpNode(self, n):
        ops, comps = [CMP[n.operator]()], [self.e(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(CMP[c.operator]())
            comps.append(self.e(c.operand2))
            c = c.cascade
        return ast.Compare(left=self.e(n.operand1), ops=ops, comparators=comps)

    def x_CondExprNode(self, n):
        return ast.IfExp(test=self.e(n.test if hasattr(n, "test") else n.condition),
                         body=self.e(n.true_val), orelse=self.e(n.false_val))

    def x_TypecastNode(self, n):
        t = self.type_str(n.base_type) + self.decl_suffix(n.declarator)
        return ast.Call(func=ast.Name(id="__cast__", ctx=ast.Load()),
                        args=[ast.Constant(value=t), self.e(n.operand)], keywords=[])

    def x_AmpersandNode(self, n):
        return ast.Call(func=ast.Name(id="__addr__", ctx=ast.Load()), args=[self.e(n.operand)], keywords=[])

    def x_SizeofVarNode(self, n):
        return ast.Call(func=ast.Name(id="__sizeof__", ctx=ast.Load()), args=[self.e(n.operand)], keywords=[])

    def x_SizeofTypeNode(self, n):
        return ast.Call(func=ast.Name(id="__sizeof__", ctx=ast.Load()),
                        args=[ast.Constant(value=self.type_str(n.base_type))], keywords=[])

    def x_JoinedStrNode(self, n):
        return ast.JoinedStr(values=[self.e(v) for v in n.values])

    def x_FormattedValueNode(self, n):
        return ast.FormattedValue(value=self.e(n.value), conversion=-1, format_spec=None)

    def x_ComprehensionNode(self, n):
        # [expr for target in iter if cond]
        gens = []
        loop = n.loop
        elt = None
        while True:
            k = type(loop).__name__
            if k in ("ForInStatNode", "_ForInStatNode"):
                gens.append(ast.comprehension(target=self.e(loop.target, True), iter=self.e(loop.iterator.sequence),
                                              ifs=[], is_async=0))
                loop = loop.body
            elif k == "StatListNode" and len(loop.stats) == 1:
                loop = loop.stats[0]
            elif k == "IfStatNode":
                gens[-1].ifs.append(self.e(loop.if_clauses[0].condition))
                loop = loop.if_clauses[0].body
            elif k == "ExprStatNode":
                loop = loop.expr
            elif k == "ComprehensionAppendNode":
                elt = self.e(loop.expr)
                break
            elif k == "DictComprehensionAppendNode":
                return ast.DictComp(key=self.e(loop.key_expr), value=self.e(loop.value_expr), generators=gens)
            else:
                raise NotImplementedError("comprehension " + k)
        return ast.ListComp(elt=elt, generators=gens)

    def x_LambdaNode(self, n):
        args = self.args_of(n.args, n.star_arg, n.starstar_arg, n)
        return ast.Lambda(args=args, body=self.e(n.result_expr))

    def x_ImportNode(self, n):
        return ast.Call(func=ast.Name(id="__import__", ctx=ast.Load()),
                        args=[ast.Constant(value=n.module_name.value)], keywords=[])


def _is_none(v):
    return v is None or type(v).__name__ == "NoneNode"


def parse_pyx(path, modname):
    from Cython.Compiler.TreeFragment import parse_from_strings
    from Cython.Compiler import Errors
    with open(path, encoding="utf8") as f:
        src = f.read()
    try:
        Errors.init_thread()
    except Exception:
        pass
    tree = parse_from_strings(modname, src)
    tr = Tr(modname)
    body = tr.stats(tree.body)
    m = ast.Module(body=body, type_ignores=[])
    m._ctypes = tr.ctypes[0]
    ast.fix_missing_locations(m)
    return m
