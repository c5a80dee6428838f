"""C++ sources as Python syntax trees: clang parses and resolves the file, the
function bodies are converted so that one analysis reads all languages.

Pointer accesses become subscripts (`*p` is `p[0]`), `&x` is `__addr__(x)`, a
cast `__cast__("T", x)`; a for loop is an `ast.While` whose step statements are
in `_inc`."""
import ast
import json
import os
import re
import subprocess
import tempfile

from .report import Incomplete

STUBS = {
    "cmath": "", "cstring": "", "algorithm": "", "stdexcept": "", "string": "", "type_traits": "", "cstdint": "", "cstddef": "", "limits": "", "utility": "",
    "vector": "", "numeric": "", "memory": "", "tuple": "", "array": "",
}
STD = """
namespace std {
typedef unsigned long size_t;
template <typename T> T exp(T); template <typename T> T log(T); template <typename T> T log1p(T); template <typename T> T tanh(T);
template <typename T> T sqrt(T); template <typename T> T abs(T); template <typename T> T fabs(T); template <typename T> T cosh(T);
template <typename T, typename U> T pow(T, U); template <typename T> T erf(T);
template <typename T> const T& max(const T&, const T&); template <typename T> const T& min(const T&, const T&);
struct string { string(const char*); }; string operator+(const string&, const string&); string operator+(const string&, const char*);
template <typename T> string to_string(T);
struct exception {}; struct out_of_range : exception { out_of_range(const string&); out_of_range(const char*); };
struct invalid_argument : exception { invalid_argument(const string&); invalid_argument(const char*); };
struct runtime_error : exception { runtime_error(const string&); runtime_error(const char*); };
struct domain_error : exception { domain_error(const string&); domain_error(const char*); };
struct length_error : exception { length_error(const string&); length_error(const char*); };
struct logic_error : exception { logic_error(const string&); logic_error(const char*); };
void* memcpy(void*, const void*, size_t); void* memset(void*, int, size_t); void* memmove(void*, const void*, size_t);
template <typename T> struct is_floating_point { static constexpr bool value = true; };
template <typename T> struct is_integral { static constexpr bool value = true; };
template <typename T> struct is_same_ { static constexpr bool value = true; };
template <typename I, typename T> void fill(I, I, const T&); template <typename I, typename N, typename T> void fill_n(I, N, const T&);
template <typename I, typename O> O copy(I, I, O); template <typename I, typename N, typename O> O copy_n(I, N, O);
}
"""
CUDA = """
typedef unsigned long size_t;
#define __global__
#define __device__
#define __shared__
#define __restrict__
struct __dim3 { int x, y, z; }; extern __dim3 blockIdx, blockDim, gridDim, threadIdx;
template <typename T> T exp(T); template <typename T> T log(T); template <typename T> T tanh(T); template <typename T> T sqrt(T); template <typename T> T cosh(T);
template <typename T> T erf(T); template <typename T> T max(T, T); template <typename T> T min(T, T); template <typename T> T fabs(T);
double pow(double, double); double log1p(double); float expf(float); float logf(float); float tanhf(float); float sqrtf(float);
template <typename T, typename U> T atomicAdd(T*, U); void __syncthreads();
typedef unsigned int uint32_t; typedef unsigned long uint64_t; typedef unsigned char uint8_t; typedef int int32_t; typedef long int64_t;
"""


def dump(path, cuda=False):
    with tempfile.TemporaryDirectory() as d:
        for n in STUBS:
            with open(os.path.join(d, n), "w") as f:
                f.write("#pragma once\n")
        pre = os.path.join(d, "prelude.h")
        with open(pre, "w") as f:
            own = cuda and re.search(r"typedef[\w ]+\buint64_t\s*;", open(path, encoding="utf8").read())
            f.write("#pragma once\n" + STD + ((re.sub(r"(?m)^typedef unsigned int uint32_t;.*$", "", CUDA) if own else CUDA) if cuda else ""))
        src = os.path.abspath(path)
        base = ["clang++", "-std=c++17", "-fsyntax-only", "-Wno-everything", "-Xclang", "-ast-dump=json", "-x", "c++", "-include", pre]
        r = subprocess.run(base + ["-nostdinc", "-nostdinc++", "-I", d, src], capture_output=True)
        if r.returncode and not cuda:
            r = subprocess.run(base[:-2] + [src], capture_output=True)
        if r.returncode:
            raise Incomplete(f"clang cannot parse {path}: {r.stderr.decode()[:300]}")
        return json.loads(r.stdout)


class Conv:
    def __init__(self, rel):
        self.rel = rel
        self.src = b""
        self.consts = {}
        self.structs = {}
        self.funcs = []

    def walk(self, n):
        """Line numbers are delta-encoded in document order: visit everything."""
        stack = [n]
        cur = 0

        def visit(x):
            nonlocal cur
            if not isinstance(x, dict):
                return
            for key in ("loc", "range"):
                v = x.get(key)
                if not v:
                    continue
                for part in ([v] if key == "loc" else [v.get("begin"), v.get("end")]):
                    if not part:
                        continue
                    for sub in ([part[k] for k in ("spellingLoc", "expansionLoc") if k in part] or [part]):
                        if "line" in sub:
                            cur = sub["line"]
                        if key == "range" and part is v.get("begin") or key == "loc":
                            x["_line"] = cur
            for c in x.get("inner", []) or []:
                visit(c)
        visit(n)

    def top(self, n, ns=""):
        k = n.get("kind")
        if k in ("TranslationUnitDecl", "NamespaceDecl", "LinkageSpecDecl"):
            for c in n.get("inner", []):
                self.top(c)
        elif k == "FunctionTemplateDecl":
            for c in n.get("inner", []):
                if c.get("kind") == "FunctionDecl":
                    self.func(c)
                    break
        elif k == "FunctionDecl":
            self.func(n)
        elif k in ("ClassTemplateSpecializationDecl", "CXXRecordDecl", "ClassTemplateDecl"):
            fields = [c["name"] for c in n.get("inner", []) if c.get("kind") == "FieldDecl" and c.get("name")]
            if fields and n.get("name"):
                self.structs.setdefault(n["name"], fields)
            for c in n.get("inner", []):
                if c.get("kind") == "CXXRecordDecl" and k == "ClassTemplateDecl":
                    self.top(c)
                if c.get("kind") == "VarDecl" and c.get("inner"):
                    x = self.expr(c["inner"][-1])
                    if isinstance(x, ast.Constant):
                        self.consts.setdefault(c["name"], []).append(x.value)
        elif k == "VarDecl" and n.get("inner"):
            x = self.expr(n["inner"][-1])
            if isinstance(x, ast.Constant):
                self.consts.setdefault(n["name"], []).append(x.value)

    def func(self, n):
        body = [c for c in n.get("inner", []) if c.get("kind") == "CompoundStmt"]
        if not body:
            return
        ps = [c for c in n.get("inner", []) if c.get("kind") == "ParmVarDecl"]
        f = ast.FunctionDef(name=n["name"], args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=p.get("name", f"_{i}")) for i, p in enumerate(ps)],
                            kwonlyargs=[], kw_defaults=[], defaults=self.defaults(ps)), body=self.block(body[0]), decorator_list=[])
        f._ctypes = {p.get("name", f"_{i}"): p.get("type", {}).get("qualType", "") for i, p in enumerate(ps)}
        f._pack = [p.get("name") for p in ps if "..." in p.get("type", {}).get("qualType", "")]
        f.lineno, f.col_offset = n.get("_line", 0), 0
        f._file = self.rel
        self.funcs.append(f)

    def defaults(self, ps):
        out = []
        for p in ps:
            init = [c for c in p.get("inner", []) or [] if c.get("kind", "").endswith(("Expr", "Operator", "Literal", "Cleanups"))]
            if init:
                out.append(self.expr(init[-1]))
            elif out:
                return []
        return out

    def switch(self, n, inner):
        """A switch as a chain of tests in a loop that runs once, so that `break` leaves it; None when a case falls
        through into the next or a `continue` would leave it."""
        bodies = [c for c in inner if c.get("kind") == "CompoundStmt"]
        if len(bodies) != 1 or inner[-1] is not bodies[0] or len(inner) != 2:
            return None
        groups = []
        for c in bodies[0].get("inner", []) or []:
            labels, default = [], False
            while c is not None and c.get("kind") in ("CaseStmt", "DefaultStmt"):
                cc = c.get("inner", []) or []
                if c["kind"] == "CaseStmt":
                    labels.append(self.expr(cc[0]))
                    c = cc[-1] if len(cc) > 1 else None
                else:
                    default = True
                    c = cc[-1] if cc else None
            if labels or default:
                groups.append([labels, default, []])
            if not groups:
                return None
            if c is not None:
                groups[-1][2].extend(self.stmt(c))
        for i, (_, _, b) in enumerate(groups):
            if any(isinstance(x, ast.Continue) for s in b for x in ast.walk(s)):
                return None
            if i + 1 < len(groups) and not (b and isinstance(b[-1], (ast.Break, ast.Return, ast.Raise))):
                return None
        v = f"__switch{n.get('_line', 0)}"
        set_ = self.at(n, ast.Assign(targets=[ast.Name(id=v, ctx=ast.Store())], value=self.expr(inner[0])))
        chain = next((b for _, d, b in groups if d), [])
        for labels, d, b in reversed(groups):
            if d:
                if labels:
                    return None
                continue
            tests = [self.at(n, ast.Compare(left=self.at(n, ast.Name(id=v, ctx=ast.Load())), ops=[ast.Eq()], comparators=[x])) for x in labels]
            test = tests[0] if len(tests) == 1 else self.at(n, ast.BoolOp(op=ast.Or(), values=tests))
            chain = [self.at(n, ast.If(test=test, body=b or [ast.Pass()], orelse=chain))]
        w = self.at(n, ast.While(test=self.at(n, ast.Constant(value=True)), body=chain + [self.at(n, ast.Break())], orelse=[]))
        w._inc = []
        return [set_, w]

    def block(self, n):
        out = []
        if n is None:
            return [ast.Pass()]
        for c in (n.get("inner", []) if n.get("kind") == "CompoundStmt" else [n]):
            out += self.stmt(c)
        return out or [ast.Pass()]

    def at(self, n, x):
        x.lineno = n.get("_line", 0)
        x.col_offset = 0
        return x

    def stmt(self, n):
        k = n.get("kind")
        inner = [c for c in n.get("inner", []) or []]
        if k == "CompoundStmt":
            return self.block(n)
        if k == "DeclStmt":
            out = []
            for d in inner:
                if d.get("kind") == "VarDecl":
                    t = d.get("type", {}).get("qualType", "")
                    init = [c for c in d.get("inner", []) if c.get("kind", "").endswith(("Expr", "Operator", "Literal", "Cleanups"))]
                    s = ast.AnnAssign(target=ast.Name(id=d["name"], ctx=ast.Store()), annotation=ast.Constant(value=t), value=self.expr(init[-1]) if init else None, simple=1)
                    s._ctype = t
                    out.append(self.at(d, s))
            return out
        if k == "IfStmt":
            c = inner[:]
            cond = self.expr(c[0])
            return [self.at(n, ast.If(test=cond, body=self.block(c[1]), orelse=self.block(c[2]) if len(c) > 2 else []))]
        if k == "ForStmt":
            init, _, cond, inc, body = (inner + [None] * 5)[:5]
            w = self.at(n, ast.While(test=self.expr(cond) if cond and cond.get("kind") else ast.Constant(value=True), body=self.block(body), orelse=[]))
            w._inc = self.exprs(inc) if inc and inc.get("kind") else []
            return (self.stmt(init) if init and init.get("kind") else []) + [w]
        if k == "WhileStmt":
            w = self.at(n, ast.While(test=self.expr(inner[0]), body=self.block(inner[-1]), orelse=[]))
            w._inc = []
            return [w]
        if k == "DoStmt" and len(inner) == 2:
            body, cond = self.block(inner[0]), self.expr(inner[1])
            if isinstance(cond, ast.Constant) and not cond.value and not any(isinstance(x, (ast.Break, ast.Continue)) for s in body for x in ast.walk(s)):
                return body
            v = f"__first{n.get('_line', 0)}"
            def first(b):
                return self.at(n, ast.Assign(targets=[ast.Name(id=v, ctx=ast.Store())], value=self.at(n, ast.Constant(value=b))))
            w = self.at(n, ast.While(test=self.at(n, ast.BoolOp(op=ast.Or(), values=[self.at(n, ast.Name(id=v, ctx=ast.Load())), cond])), body=[first(False)] + body, orelse=[]))
            w._inc = []
            return [first(True), w]
        if k == "SwitchStmt":
            r = self.switch(n, inner)
            if r is not None:
                return r
        if k == "ReturnStmt":
            return [self.at(n, ast.Return(value=self.expr(inner[0]) if inner else None))]
        if k == "BreakStmt":
            return [self.at(n, ast.Break())]
        if k == "ContinueStmt":
            return [self.at(n, ast.Continue())]
        if k in ("NullStmt", "StaticAssertDecl"):
            return []
        if k in ("ExprWithCleanups", "ParenExpr") and inner:
            return self.stmt(inner[0])
        if k == "CXXThrowExpr":
            return [self.at(n, ast.Raise(exc=self.expr(inner[0]) if inner else None, cause=None))]
        return self.exprs(n)

    def exprs(self, n):
        """An expression evaluated for its effect."""
        k = n.get("kind")
        inner = n.get("inner", []) or []
        if k in ("ExprWithCleanups", "ParenExpr", "ImplicitCastExpr") and inner:
            return self.exprs(inner[0])
        if k == "BinaryOperator" and n.get("opcode") == ",":
            return self.exprs(inner[0]) + self.exprs(inner[1])
        if k == "BinaryOperator" and n.get("opcode") == "=":
            t = self.expr(inner[0])
            if hasattr(t, "ctx"):
                t.ctx = ast.Store()
            return [self.at(n, ast.Assign(targets=[t], value=self.expr(inner[1])))]
        if k == "CompoundAssignOperator":
            t = self.expr(inner[0])
            if hasattr(t, "ctx"):
                t.ctx = ast.Store()
            return [self.at(n, ast.AugAssign(target=t, op=BIN[n["opcode"][:-1]](), value=self.expr(inner[1])))]
        if k == "UnaryOperator" and n.get("opcode") in ("++", "--"):
            t = self.expr(inner[0])
            if hasattr(t, "ctx"):
                t.ctx = ast.Store()
            return [self.at(n, ast.AugAssign(target=t, op=(ast.Add if n["opcode"] == "++" else ast.Sub)(), value=ast.Constant(value=1)))]
        if k == "CXXThrowExpr":
            return self.stmt(n)
        return [self.at(n, ast.Expr(value=self.expr(n)))]

    def call(self, n, name, *args):
        return self.at(n, ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[]))

    def expr(self, n):
        x = self.expr1(n)
        if not hasattr(x, "lineno"):
            self.at(n, x)
        return x

    def expr1(self, n):
        k = n.get("kind")
        inner = n.get("inner", []) or []
        if k in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "FullExpr"):
            return self.expr(inner[0])
        if k == "BinaryOperator":
            op = n["opcode"]
            if op in BIN:
                return ast.BinOp(left=self.expr(inner[0]), op=BIN[op](), right=self.expr(inner[1]))
            if op in CMP:
                return ast.Compare(left=self.expr(inner[0]), ops=[CMP[op]()], comparators=[self.expr(inner[1])])
            if op in ("&&", "||"):
                return ast.BoolOp(op=ast.And() if op == "&&" else ast.Or(), values=[self.expr(inner[0]), self.expr(inner[1])])
            return self.call(n, "__unknown__")
        if k == "UnaryOperator":
            op = n["opcode"]
            x = self.expr(inner[0])
            if op == "*":
                return ast.Subscript(value=x, slice=ast.Constant(value=0), ctx=ast.Load())
            if op == "&":
                return self.call(n, "__addr__", x)
            if op in ("-", "+", "!", "~"):
                return ast.UnaryOp(op={"-": ast.USub, "+": ast.UAdd, "!": ast.Not, "~": ast.Invert}[op](), operand=x)
            if op in ("++", "--"):
                return self.call(n, "__incr__" if n.get("isPostfix") else "__preincr__", x, ast.Constant(value=1 if op == "++" else -1))
            return self.call(n, "__unknown__")
        if k == "ArraySubscriptExpr":
            return ast.Subscript(value=self.expr(inner[0]), slice=self.expr(inner[1]), ctx=ast.Load())
        if k == "DeclRefExpr":
            return ast.Name(id=n.get("referencedDecl", {}).get("name", "?"), ctx=ast.Load())
        if k in ("UnresolvedLookupExpr", "UnresolvedMemberExpr"):
            return ast.Name(id=n.get("name", "?"), ctx=ast.Load())
        if k in ("MemberExpr", "CXXDependentScopeMemberExpr"):
            return ast.Attribute(value=self.expr(inner[0]), attr=(n.get("name") or n.get("member") or "?").lstrip("->."), ctx=ast.Load()) if inner else ast.Name(id=n.get("name") or n.get("member") or "?", ctx=ast.Load())
        if k == "DependentScopeDeclRefExpr":     # clang gives no name: the last token
            e = (n.get("range") or {}).get("end", {})
            o, l = e.get("offset"), e.get("tokLen")
            nm = self.src[o:o + l].decode(errors="replace") if o is not None and l else "?"
            return ast.Name(id=nm if nm.isidentifier() else "__unknown__", ctx=ast.Load())
        if k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            f = self.expr(inner[0])
            return ast.Call(func=f, args=[self.expr(c) for c in inner[1:]], keywords=[])
        if k in ("CStyleCastExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr", "CXXReinterpretCastExpr", "CXXUnresolvedConstructExpr", "CXXConstCastExpr"):
            t = n.get("typeAsWritten", n.get("type", {})).get("qualType", "")
            return self.call(n, "__cast__", ast.Constant(value=t), *[self.expr(c) for c in inner[:1]])
        if k in ("CXXConstructExpr", "CXXTemporaryObjectExpr", "InitListExpr", "ParenListExpr"):
            if len(inner) == 1 and k != "InitListExpr":
                return self.expr(inner[0])
            if k in ("InitListExpr", "ParenListExpr"):
                return ast.List(elts=[self.expr(c) for c in inner], ctx=ast.Load())
            return self.call(n, "__construct__", ast.Constant(value=n.get("type", {}).get("qualType", "")), *[self.expr(c) for c in inner])
        if k == "IntegerLiteral":
            return ast.Constant(value=int(n["value"]))
        if k == "FloatingLiteral":
            return ast.Constant(value=float(n["value"]))
        if k == "CXXBoolLiteralExpr":
            return ast.Constant(value=bool(n["value"]))
        if k == "StringLiteral":
            return ast.Constant(value=n.get("value", "").strip('"'))
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"):
            return ast.Constant(value=None)
        if k == "ConditionalOperator":
            return ast.IfExp(test=self.expr(inner[0]), body=self.expr(inner[1]), orelse=self.expr(inner[2]))
        if k == "UnaryExprOrTypeTraitExpr":
            a = self.expr(inner[0]) if inner else ast.Constant(value=n.get("argType", {}).get("qualType", ""))
            return self.call(n, n.get("name", "sizeof"), a)
        if k == "CXXDefaultArgExpr":
            return ast.Constant(value=None)
        if k == "PackExpansionExpr":
            return ast.Starred(value=self.expr(inner[0]), ctx=ast.Load())
        return self.call(n, "__unknown__", ast.Constant(value=k))


BIN = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "%": ast.Mod, "<<": ast.LShift, ">>": ast.RShift, "&": ast.BitAnd, "|": ast.BitOr, "^": ast.BitXor}
CMP = {"<": ast.Lt, ">": ast.Gt, "<=": ast.LtE, ">=": ast.GtE, "==": ast.Eq, "!=": ast.NotEq}


def parse(path, rel, cuda=False):
    """name -> list of function definitions (overloads in order)."""
    d = dump(path, cuda)
    c = Conv(rel)
    with open(path, "rb") as f:
        c.src = f.read()
    c.walk(d)
    c.top(d)
    out = {}
    for f in c.funcs:
        ast.fix_missing_locations(f)
        f._consts = c.consts
        f._structs = c.structs
        out.setdefault(f.name, []).append(f)
    return out
