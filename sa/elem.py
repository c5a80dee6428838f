"""Value-flow analysis of elementwise array code.

Every array is a buffer holding a closed formula of the elements it was computed
from; stores, in-place operators, masked stores and elementwise kernel loops
update the formula of the buffer they write.  The result of a function is a set
of paths, each with the buffer returned, the formula of every argument buffer at
the end and the conditions under which the path is taken.  Python, Cython and
C++/CUDA bodies are read by the same analysis (see cy.py and cpp.py)."""
import ast
import math
import re
from fractions import Fraction

from .rules_ops import bases


class Unsup(Exception):
    pass


class Fail(Exception):
    """The path ends with an error."""


class Ret(Exception):
    def __init__(self, v):
        self.v = v


# -- formulas -----------------------------------------------------------------
def num(x):
    return ("num", float(x))


def var(n):
    return ("var", n)


def f2(op, a, b):
    if a[0] == "num" and b[0] == "num":
        try:
            return num(ARITH[op](a[1], b[1]))
        except (ZeroDivisionError, OverflowError, ValueError):
            pass
    if op == "add":
        if a == num(0):
            return b
        if b == num(0):
            return a
    if op == "mul" and (a == num(1) or b == num(1)):
        return b if a == num(1) else a
    return (op, a, b)


def safe_pow(a, b):
    return math.pow(a, b)


ARITH = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b, "pow": safe_pow,
         "mod": lambda a, b: math.fmod(a, b), "floordiv": lambda a, b: a // b}
BINOP = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.Pow: "pow", ast.Mod: "mod", ast.FloorDiv: "floordiv"}
CMPOP = {ast.Lt: "lt", ast.LtE: "le", ast.Eq: "eq", ast.NotEq: "ne"}
FNS = {"exp": math.exp, "log": math.log, "log1p": math.log1p, "tanh": math.tanh, "sqrt": math.sqrt, "cosh": math.cosh, "erf": math.erf,
       "abs": abs, "sign": lambda x: (x > 0) - (x < 0), "sinh": math.sinh, "expm1": math.expm1, "floor": math.floor}
ALIAS = {"absolute": "abs", "fabs": "abs", "expf": "exp", "logf": "log", "tanhf": "tanh", "sqrtf": "sqrt", "erff": "erf", "coshf": "cosh"}
REDS = {"sum", "mean", "max", "min", "var", "segsum"}


def where_(c, a, b):
    if a == b:
        return a
    if c[0] == "bool":
        return a if c[1] else b
    return ("where", c, a, b)


def is_cond(f):
    return f[0] in ("lt", "le", "eq", "ne", "and", "or", "not", "bool", "opq")


def as_num(f):
    return where_(f, num(1), num(0)) if is_cond(f) else f


def free(f, out=None):
    out = set() if out is None else out
    if f[0] == "var":
        out.add(f[1])
    else:
        for x in f[1:]:
            if isinstance(x, tuple):
                free(x, out)
    return out


class Undef(Exception):
    pass


def bc(fn, *xs):
    n = max((len(x) for x in xs if isinstance(x, list)), default=0)
    if not n:
        return fn(*xs)
    return [fn(*[x[i] if isinstance(x, list) else x for x in xs]) for i in range(n)]


def ev(f, env):
    """Value of a formula: a number, or a list for one row of an array."""
    op = f[0]
    if op == "num" or op == "bool":
        return f[1]
    if op == "var":
        if f[1] not in env:
            raise Undef(f[1])
        return env[f[1]]
    if op in ARITH:
        return bc(ARITH[op], ev(f[1], env), ev(f[2], env))
    if op == "fn":
        if f[1] not in FNS:
            raise Undef(f[1])
        return bc(FNS[f[1]], ev(f[2], env))
    if op == "where":
        c = ev(f[1], env)
        # only the side taken has to be defined
        if isinstance(c, list):
            n = len(c)
            out = []
            for i in range(n):
                e = {k: (v[i] if isinstance(v, list) else v) for k, v in env.items()} if not has_red(f[2]) and not has_red(f[3]) else None
                if e is not None:
                    out.append(ev(f[2] if c[i] else f[3], e))
                else:
                    x = ev(f[2] if c[i] else f[3], env)
                    out.append(x[i] if isinstance(x, list) else x)
            return out
        return ev(f[2] if c else f[3], env)
    if op in ("lt", "le", "eq", "ne"):
        k = {"lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b}[op]
        return bc(k, ev(f[1], env), ev(f[2], env))
    if op == "and":
        return bc(lambda a, b: bool(a) and bool(b), ev(f[1], env), ev(f[2], env))
    if op == "or":
        return bc(lambda a, b: bool(a) or bool(b), ev(f[1], env), ev(f[2], env))
    if op == "not":
        return bc(lambda a: not a, ev(f[1], env))
    if op == "red":
        x = ev(f[2], env)
        if f[1] == "batch":     # summed over the rows: the contribution of one row
            return x
        if not isinstance(x, list):
            n = next((len(v) for v in env.values() if isinstance(v, list)), 1)
            x = [x] * n
        n = len(x)
        if f[1] in ("sum", "segsum"):
            return sum(x)
        if f[1] == "mean":
            return sum(x) / n
        if f[1] == "var":
            m = sum(x) / n
            return sum((v - m) ** 2 for v in x) / n
        return max(x) if f[1] == "max" else min(x)
    if op == "pick":        # derivative of a maximum: the tangent at the maximum
        x, d = ev(f[2], env), ev(f[3], env)
        if not isinstance(x, list):
            return d
        i = x.index(max(x) if f[1] == "max" else min(x))
        return d[i] if isinstance(d, list) else d
    raise Undef(op)


_CODE = {}


def code(f):
    """The formula as Python source; variables are looked up in `e`."""
    r = _CODE.get(f)
    if r is None:
        r = _CODE[f] = code1(f)
    return r


def code1(f):
    op = f[0]
    if op in ("num", "bool"):
        return f"({f[1]!r})" if f[1] == f[1] and abs(f[1]) != math.inf else f"float('{f[1]}')"
    if op == "var":
        return f"e[{f[1]!r}]"
    if op in ("add", "sub", "mul", "div"):
        return f"({code(f[1])} {dict(add='+', sub='-', mul='*', div='/')[op]} {code(f[2])})"
    if op in ARITH:
        return f"_{op}({code(f[1])}, {code(f[2])})"
    if op == "fn":
        if f[1] not in FNS:
            raise Undef(f[1])
        return f"_{f[1]}({code(f[2])})"
    if op == "where":
        return f"({code(f[2])} if {code(f[1])} else {code(f[3])})"
    if op in ("lt", "le", "eq", "ne"):
        return f"({code(f[1])} {dict(lt='<', le='<=', eq='==', ne='!=')[op]} {code(f[2])})"
    if op in ("and", "or"):
        return f"({code(f[1])} {op} {code(f[2])})"
    if op == "not":
        return f"(not {code(f[1])})"
    raise Undef(op)


_FUN = {}
_NS = {"_" + k: v for k, v in list(FNS.items()) + list(ARITH.items())} | {"float": float}


def pointwise(f):
    """The formula of one element as a function of an environment; None where
    it has no value."""
    if f not in _FUN:
        try:
            src = code(f)
            g = eval(compile("lambda e: " + src, "<formula>", "eval"), dict(_NS))
        except (Undef, RecursionError, MemoryError, SyntaxError):
            g = lambda e: ev(f, e)

        def h(e):
            try:
                return g(e)
            except (ZeroDivisionError, OverflowError, ValueError):
                return None
        _FUN[f] = h
    return _FUN[f]


def has_red(f):
    return f[0] in ("red", "pick") or any(isinstance(x, tuple) and has_red(x) for x in f[1:])


def jvp(f, tan):
    """Directional derivative; `tan` maps variables to their tangents."""
    op = f[0]
    z = num(0)
    if op == "var":
        return tan.get(f[1], z)
    if op in ("num", "bool") or is_cond(f):
        return z
    if op in ("add", "sub"):
        return f2(op, jvp(f[1], tan), jvp(f[2], tan))
    if op == "mul":
        a, b = jvp(f[1], tan), jvp(f[2], tan)
        x = z if a == z else f2("mul", a, f[2])
        y = z if b == z else f2("mul", f[1], b)
        return f2("add", x, y)
    if op == "div":
        a, b = jvp(f[1], tan), jvp(f[2], tan)
        x = z if a == z else f2("div", a, f[2])
        if b == z:
            return x
        return f2("sub", x, f2("div", f2("mul", f[1], b), f2("mul", f[2], f[2])))
    if op == "pow":
        a, b = jvp(f[1], tan), jvp(f[2], tan)
        if b != z:
            raise Undef("pow")
        if a == z:
            return z
        return f2("mul", f2("mul", f[2], ("pow", f[1], f2("sub", f[2], num(1)))), a)
    if op == "where":
        a, b = jvp(f[2], tan), jvp(f[3], tan)
        return where_(f[1], a, b)
    if op == "fn":
        d = jvp(f[2], tan)
        if d == z:
            return z
        u = f[2]
        k = f[1]
        if k == "exp":
            g = f
        elif k == "log":
            g = f2("div", num(1), u)
        elif k == "log1p":
            g = f2("div", num(1), f2("add", num(1), u))
        elif k == "tanh":
            g = f2("sub", num(1), f2("mul", f, f))
        elif k == "sqrt":
            g = f2("div", num(0.5), f)
        elif k == "cosh":
            g = ("fn", "sinh", u)
        elif k == "sinh":
            g = ("fn", "cosh", u)
        elif k == "erf":
            g = f2("mul", num(2 / math.sqrt(math.pi)), ("fn", "exp", f2("mul", num(-1), f2("mul", u, u))))
        elif k == "abs":
            g = ("fn", "sign", u)
        elif k == "sign":
            return z
        else:
            raise Undef(k)
        return f2("mul", g, d)
    if op == "red":
        d = jvp(f[2], tan)
        if f[1] in ("sum", "mean", "segsum", "batch"):
            return ("red", f[1], d)
        if f[1] == "var":
            m = f2("sub", f[2], ("red", "mean", f[2]))
            return f2("mul", num(2), ("red", "mean", f2("mul", m, f2("sub", d, ("red", "mean", d)))))
        return ("pick", f[1], f[2], d)
    raise Undef(op)


def show_f(f):
    op = f[0]
    if op == "num":
        return f"{f[1]:g}"
    if op == "var":
        return f[1]
    if op in ARITH:
        return "(%s %s %s)" % (show_f(f[1]), {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "**"}.get(op, op), show_f(f[2]))
    if op == "fn":
        return f"{f[1]}({show_f(f[2])})"
    if op in ("lt", "le", "eq", "ne"):
        return "%s %s %s" % (show_f(f[1]), {"lt": "<", "le": "<=", "eq": "==", "ne": "!="}[op], show_f(f[2]))
    return f"{op}(" + ", ".join(show_f(x) if isinstance(x, tuple) else str(x) for x in f[1:]) + ")"


# -- values -------------------------------------------------------------------
class Buf:
    def __init__(self, name, f, param=False):
        self.name, self.f, self.param = name, f, param
        self.writes = []


class Arr:
    def __init__(self, buf, cond=None, kind="array"):
        self.buf, self.cond, self.kind = buf, cond, kind


class Scal:
    def __init__(self, f):
        self.f = f


class Py:
    def __init__(self, v):
        self.v = v


class Tup:
    def __init__(self, xs):
        self.xs = xs


def elementwise(call):
    """The function of a cupy.ElementwiseKernel: parameters by name, a C body."""
    txt = [a.value for a in call.args[:3] if isinstance(a, ast.Constant) and isinstance(a.value, str)]
    if len(txt) < 3:
        return None
    ins, outs = ([p.split()[-1] for p in t.split(",") if p.strip()] for t in txt[:2])
    body = []
    for st in txt[2].split(";"):
        st = " ".join(st.split())
        if not st:
            continue
        m = re.match(r"(?:const )?(?:T|float|double|auto) (\w+ ?=[^=].*)$", st)
        try:
            x = ast.parse(m.group(1) if m else st).body[0]
        except SyntaxError:
            return None
        if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id in outs:
            x.targets[0] = ast.Subscript(value=x.targets[0], slice=ast.Constant(value=Ellipsis), ctx=ast.Store())
        elif not isinstance(x, (ast.Assign, ast.AugAssign)):
            return None
        body.append(x)
    f = ast.parse(f"def kernel({', '.join(ins + outs)}):\n    pass").body[0]
    f.body = body
    for x in body:
        for y in ast.walk(x):
            y.lineno = y.end_lineno = call.lineno
            y.col_offset = y.end_col_offset = 0
    f.lineno = call.lineno
    return f


class Opq:
    def __init__(self, t):
        self.t = t


class Fn:
    def __init__(self, node, mod, cls=None, me=None, env=None, bound=()):
        self.node, self.mod, self.cls, self.me, self.env, self.bound = node, mod, cls, me, env, bound


class Me:
    """The backend object; `skip` classes of its linearisation are passed over."""
    def __init__(self, skip=0):
        self.skip = skip


class Lib:
    """An array library or another external namespace."""
    def __init__(self, name):
        self.name = name


class ModV:
    def __init__(self, m):
        self.m = m


class Kernel:
    def __init__(self, fs, name):
        self.fs, self.name = fs, name


IDX = "<element>"


class Elem:
    MAXPATHS = 200

    def __init__(self, P, mod=None, cls=None, kernels=None, cuda=None, hooks=None):
        self.P, self.mod, self.cls = P, mod, cls
        self.lin = bases(P, mod, cls) if cls is not None else []
        self.kernels = kernels or {}
        self.cuda = cuda or {}
        self.hooks = hooks

    # -- paths ----------------------------------------------------------------
    def paths(self, fn):
        """fn(self) is run once for every combination of open decisions."""
        out = []
        todo = [[]]
        while todo:
            pre = todo.pop()
            self.pre, self.taken, self.memo = pre, [], {}
            self.conds, self.n, self.depth, self.guard = [], 0, 0, []
            self.trace = []
            try:
                r = fn(self)
            except Fail:
                r = None
            for i in range(len(pre), len(self.taken)):
                todo.append([d for _, d in self.taken[:i]] + [not self.taken[i][1]])
            if r is not None:
                out.append((list(self.conds), r, list(self.taken)))
            if len(out) + len(todo) > self.MAXPATHS:
                raise Unsup("too many paths")
        return out

    def decide(self, key):
        if key in self.memo:
            return self.memo[key]
        i = len(self.taken)
        d = self.pre[i] if i < len(self.pre) else True
        self.taken.append((key, d))
        self.memo[key] = d
        return d

    def truth(self, v):
        if isinstance(v, Py):
            return bool(v.v)
        if isinstance(v, Tup):
            return bool(v.xs)
        if isinstance(v, (Scal, Arr)):
            f = v.f if isinstance(v, Scal) else v.buf.f
            if f[0] in ("bool", "num"):
                return bool(f[1])
            if f[0] == "not":
                return not self.truth(Scal(f[1]))
            if f[0] == "opq":
                return self.decide(f[1])
            if f[0] == "and":
                return self.truth(Scal(f[1])) and self.truth(Scal(f[2]))
            if f[0] == "or":
                return self.truth(Scal(f[1])) or self.truth(Scal(f[2]))
            if f[0] == "ne":
                return not self.truth(Scal(("eq", f[1], f[2])))
            if not is_cond(f):
                f = ("not", ("eq", f, num(0)))
                return self.truth(Scal(f))
            d = self.decide(repr(f))
            self.conds.append((f, d))
            return d
        if isinstance(v, Opq):
            return self.decide(v.t)
        if isinstance(v, (Fn, Lib, Me, ModV)):
            return True
        raise Unsup(f"condition {type(v).__name__}")

    # -- functions --------------------------------------------------------------
    def new(self, f, name=None):
        self.n += 1
        return Arr(Buf(name or f"new{self.n}", f))

    def call_method(self, name, args, kw, skip=0):
        for i, (m, c) in enumerate(self.lin):
            if i < skip:
                continue
            r = self.P.find_method(m, c, name)
            if r is None:
                continue
            # the first class that defines it itself
            if r[1] is not c:
                continue
            return self.call(Fn(r[2], m, c, Me(i)), args, kw)
        raise Unsup(f"no method {name}")

    def call(self, fn, args, kw):
        self.depth += 1
        if self.depth > 25:
            raise Unsup("recursion")
        f = fn.node
        a = f.args
        static = any(getattr(d, "id", "") == "staticmethod" for d in getattr(f, "decorator_list", []))
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(fn.bound) + list(args)
        if fn.cls is not None and not static:
            args = [fn.me] + args
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(args[len(names):])
            args = args[:len(names)]
        if len(args) > len(names):
            raise Unsup("too many arguments")
        env.update(zip(names, args))
        kwnames = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k not in names + kwnames:
                raise Unsup(f"argument {k}")
            env[k] = v
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults)) | {k: d for k, d in zip(kwnames, a.kw_defaults) if d is not None}
        scope = (env, fn)
        for n in names + kwnames:
            if n not in env:
                if n not in defs:
                    raise Unsup(f"no value for {n}")
                env[n] = self.ex(defs[n], ({}, fn))
        try:
            if isinstance(f, ast.Lambda):
                return self.ex(f.body, scope)
            self.block(f.body, scope)
            return Py(None)
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1

    # -- statements ---------------------------------------------------------------
    def block(self, body, s):
        for st in body:
            self.st(st, s)

    def st(self, st, s):
        k = type(st)
        if k is ast.Expr:
            if not isinstance(st.value, ast.Constant):
                self.ex(st.value, s)
        elif k is ast.Assign:
            v = self.ex(st.value, s)
            for t in st.targets:
                self.assign(t, v, s, st)
        elif k is ast.AnnAssign:
            if st.value is not None:
                self.assign(st.target, self.ex(st.value, s), s, st)
        elif k is ast.AugAssign:
            self.aug(st, s)
        elif k is ast.Return:
            raise Ret(self.ex(st.value, s) if st.value is not None else Py(None))
        elif k is ast.If:
            self.if_(st, s)
        elif k is ast.Raise:
            if self.guard:
                return      # an error for some element: the others go on
            raise Fail()
        elif k is ast.Assert:
            v = self.ex(st.test, s)
            if not isinstance(v, Opq) and not self.truth(v):
                raise Fail()
        elif k in (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Delete):
            pass
        elif k is ast.FunctionDef:
            s[0][st.name] = Fn(st, s[1].mod, env=s)
        elif k is ast.With:
            for i in st.items:
                v = self.ex(i.context_expr, s)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, s, st)
            self.block(st.body, s)
        elif k in (ast.While, ast.For):
            self.loop(st, s)
        else:
            raise Unsup(f"statement {k.__name__}")

    def if_(self, st, s):
        c = self.ex(st.test, s)
        f = c.f if isinstance(c, Scal) else c.buf.f if isinstance(c, Arr) else None
        if self.elementwise and f is not None and is_cond(f) and f[0] not in ("bool", "opq") and self.varies(f):
            # both sides, each for the elements its condition selects
            self.split(f, st, s)
            return
        self.block(st.body if self.truth(c) else st.orelse, s)

    elementwise = 0

    def varies(self, f):
        return any(v in self.arrays for v in free(f))

    arrays = frozenset()

    def split(self, f, st, s):
        bufs = self.live(s)
        old = {b: b.f for b in bufs}
        loc = dict(s[0])
        self.guard.append(f)
        self.block(st.body, s)
        a, la = {b: b.f for b in bufs}, dict(s[0])
        for b in bufs:
            b.f = old[b]
        s[0].clear()
        s[0].update(loc)
        self.block(st.orelse, s)
        self.guard.pop()
        lb = dict(s[0])
        for b in bufs:
            b.f = where_(f, a[b], b.f)
        for k in set(la) & set(lb):
            x, y = la[k], lb[k]
            if isinstance(x, Scal) and isinstance(y, Scal):
                s[0][k] = Scal(where_(f, x.f, y.f))
            elif isinstance(x, Py) and isinstance(y, Py) and x.v == y.v:
                s[0][k] = x
            elif x is not y and not (isinstance(x, Py) and isinstance(y, Py)):
                s[0][k] = x if isinstance(x, Arr) and isinstance(y, Arr) and x.buf is y.buf else Opq(f"merge {k}")
        for k in set(la) ^ set(lb):
            s[0].pop(k, None)

    def live(self, s):
        out = []
        seen = set()

        def add(v):
            if isinstance(v, Arr) and id(v.buf) not in seen:
                seen.add(id(v.buf))
                out.append(v.buf)
            elif isinstance(v, Tup):
                for x in v.xs:
                    add(x)
        for v in s[0].values():
            add(v)
        return out

    def blocks(self, st, s):
        """A loop over blocks: its body handles one block and moves every
        pointer it uses on by the length of the block."""
        adv = {}
        for n in ast.walk(st):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(s[0].get(n.target.id), Arr) and s[0][n.target.id].kind == "pointer":
                adv.setdefault(n.target.id, []).append(n)
        if not adv:
            return False
        used = {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(s[0].get(n.id), Arr) and s[0][n.id].kind == "pointer"}
        steps = {ast.unparse(n.value) for ns in adv.values() for n in ns}
        s[0][st.target.id] = Opq("block")
        self.block([x for x in st.body if x not in [n for ns in adv.values() for n in ns]], s)
        for u in used:
            if len(adv.get(u, [])) != 1 or len(steps) != 1 or not isinstance(adv[u][0].op, ast.Add):
                s[0][u].buf.f = ("var", f"uninitialised: {u} not moved on")
        return True

    def loop(self, st, s):
        """Only loops over the elements of equally long buffers."""
        if isinstance(st, ast.For) and isinstance(st.target, ast.Name) and self.blocks(st, s):
            return
        if isinstance(st, ast.For):
            if isinstance(st.iter, ast.Call) and isinstance(st.iter.func, ast.Name) and st.iter.func.id == "range" and isinstance(st.target, ast.Name):
                a = [self.ex(x, s) for x in st.iter.args]
                if len(a) == 1 or len(a) == 2 and isinstance(a[0], (Scal, Py)) and self.form(a[0]) == num(0):
                    s[0][st.target.id] = Opq(IDX)
                    self.body(st.body, s)
                    return
            it = self.ex(st.iter, s)
            if isinstance(it, Tup):
                for x in it.xs:
                    self.assign(st.target, x, s, st)
                    self.block(st.body, s)
                return
            raise Unsup("loop")
        t = st.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.left, ast.Name):
            i = t.left.id
            inc = getattr(st, "_inc", None) or []
            body = st.body
            if not inc and body and isinstance(body[-1], ast.AugAssign):
                inc, body = body[-1:], body[:-1]
            if len(inc) == 1 and isinstance(inc[0], ast.AugAssign) and isinstance(inc[0].target, ast.Name) and inc[0].target.id == i and isinstance(inc[0].op, ast.Add):
                start = s[0].get(i)
                step = self.ex(inc[0].value, s)
                whole = isinstance(step, (Py, Scal)) and self.form(step) == num(1) and isinstance(start, (Py, Scal)) and self.form(start) == num(0)
                grid = isinstance(step, Opq) and isinstance(start, Opq) and "gridDim" in step.t and "threadIdx" in start.t
                if whole or grid:
                    s[0][i] = Opq(IDX)
                    self.body(body, s)
                    return
        raise Unsup("loop")

    def body(self, body, s):
        self.elementwise += 1
        try:
            self.block(body, s)
        finally:
            self.elementwise -= 1

    def store(self, arr, f, node, mask=None):
        b = arr.buf
        if arr.cond is not None:
            mask = arr.cond if mask is None else ("and", arr.cond, mask)
        b.f = f if mask is None else where_(mask, f, b.f)
        b.writes.append(node)

    def assign(self, t, v, s, node):
        if isinstance(t, ast.Name):
            s[0][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, Tup) or len(v.xs) != len(t.elts):
                raise Unsup("unpacking")
            for x, y in zip(t.elts, v.xs):
                self.assign(x, y, s, node)
        elif isinstance(t, ast.Subscript):
            a = self.ex(t.value, s)
            if isinstance(a, Lib) and a.name.startswith("builtins.") and isinstance(t.value, ast.Name):
                # a C array declared without a value
                a = s[0][t.value.id] = self.new(("var", f"uninitialised{self.n}"), t.value.id)
            if not isinstance(a, Arr):
                raise Unsup("store")
            i = self.index(t.slice, s)
            f = self.form(v)
            if i is True:
                self.store(a, f, node)
            elif isinstance(i, tuple):
                self.store(a, f, node, i)
            else:
                raise Unsup("store index")
        else:
            raise Unsup("target")

    def index(self, sl, s):
        """True for every element, a condition for a mask."""
        if isinstance(sl, ast.Slice) and sl.lower is None and sl.upper is None and sl.step is None:
            return True
        v = self.ex(sl, s)
        if isinstance(v, Opq) and v.t == IDX:
            return True
        if isinstance(v, Arr) and is_cond(v.buf.f):
            return v.buf.f
        if isinstance(v, Py) and v.v is Ellipsis:
            return True
        return None

    def aug(self, st, s):
        t = st.target
        v = self.ex(st.value, s)
        if isinstance(t, ast.Name):
            a = s[0].get(t.id)
            if a is None:
                raise Unsup("name")
            if isinstance(a, Arr) and a.kind != "pointer":
                self.store(a, self.arith(type(st.op), a, v), st)
            else:
                s[0][t.id] = self.binop(type(st.op), a, v)
            return
        if isinstance(t, ast.Subscript):
            a = self.ex(t.value, s)
            i = self.index(t.slice, s)
            if not isinstance(a, Arr) or i is None:
                raise Unsup("store index")
            self.store(a, self.arith(type(st.op), a, v), st, None if i is True else i)
            return
        raise Unsup("target")

    # -- expressions ----------------------------------------------------------------
    def form(self, v):
        if isinstance(v, Scal):
            return v.f
        if isinstance(v, Arr):
            return v.buf.f
        if isinstance(v, Py) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool):
            return num(v.v)
        if isinstance(v, Py) and isinstance(v.v, bool):
            return ("bool", v.v)
        raise Unsup(f"no number: {getattr(v, 't', type(v).__name__)}")

    def arith(self, op, a, b):
        if op not in BINOP:
            raise Unsup("operator")
        return f2(BINOP[op], as_num(self.form(a)), as_num(self.form(b)))

    def binop(self, op, a, b):
        if isinstance(a, Opq) or isinstance(b, Opq):
            return Opq(f"({self.text(a)} {op.__name__} {self.text(b)})")
        if isinstance(a, Tup) and isinstance(b, Tup) and op is ast.Add:
            return Tup(a.xs + b.xs)
        if op in (ast.BitAnd, ast.BitOr):
            return self.value("and" if op is ast.BitAnd else "or", a, b)
        if isinstance(a, Py) and isinstance(b, Py) and isinstance(a.v, str):
            return Py(None)
        f = self.arith(op, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.new(f)
        return Scal(f)

    def value(self, op, *xs):
        f = (op,) + tuple(self.form(x) for x in xs)
        return self.new(f) if any(isinstance(x, Arr) for x in xs) else Scal(f)

    def text(self, v):
        if isinstance(v, Opq):
            return v.t
        if isinstance(v, Py):
            return repr(v.v)
        if isinstance(v, Tup):
            return "(" + ", ".join(self.text(x) for x in v.xs) + ")"
        if isinstance(v, Scal):
            return show_f(v.f)
        if isinstance(v, Arr):
            return v.buf.name
        return type(v).__name__

    def ex(self, e, s):
        k = type(e)
        if k is ast.Constant:
            return Py(e.value)
        if k is ast.Name:
            return self.name(e.id, s)
        if k is ast.BinOp:
            return self.binop(type(e.op), self.ex(e.left, s), self.ex(e.right, s))
        if k is ast.UnaryOp:
            v = self.ex(e.operand, s)
            if isinstance(e.op, ast.Not):
                if isinstance(v, Opq):
                    return Scal(("not", ("opq", v.t)))
                if isinstance(v, (Scal, Arr)) and self.elementwise and is_cond(self.form(v)):
                    return Scal(("not", self.form(v)))
                return Py(not self.truth(v))
            if isinstance(v, Opq):
                return v
            if isinstance(e.op, ast.USub):
                f = f2("mul", num(-1), self.form(v)) if self.form(v)[0] != "num" else num(-self.form(v)[1])
                return self.new(f) if isinstance(v, Arr) else Scal(f)
            if isinstance(e.op, ast.UAdd):
                return v
            if isinstance(e.op, ast.Invert):
                return self.value("not", v)
            raise Unsup("operator")
        if k is ast.Compare:
            return self.compare(e, s)
        if k is ast.BoolOp:
            if self.elementwise:
                vs = [self.ex(v, s) for v in e.values]
                if all(isinstance(v, (Scal, Arr)) for v in vs):
                    f = self.form(vs[0])
                    for v in vs[1:]:
                        f = ("and" if isinstance(e.op, ast.And) else "or", f, self.form(v))
                    return Scal(f)
            v = None
            for x in e.values:
                v = self.ex(x, s)
                t = self.truth(v)
                if t != isinstance(e.op, ast.And):
                    return v if not isinstance(v, (Opq, Scal)) else Py(t)
            return v if not isinstance(v, (Opq, Scal)) else Py(t)
        if k is ast.IfExp:
            c = self.ex(e.test, s)
            if self.elementwise and isinstance(c, (Scal, Arr)) and is_cond(self.form(c)) and self.varies(self.form(c)):
                a, b = self.ex(e.body, s), self.ex(e.orelse, s)
                return Scal(where_(self.form(c), as_num(self.form(a)), as_num(self.form(b))))
            return self.ex(e.body if self.truth(c) else e.orelse, s)
        if k in (ast.Tuple, ast.List):
            return Tup([self.ex(x, s) for x in e.elts])
        if k is ast.Attribute:
            return self.attr(self.ex(e.value, s), e.attr, s)
        if k is ast.Subscript:
            return self.sub(e, s)
        if k is ast.Call:
            return self.ecall(e, s)
        if k is ast.JoinedStr:
            return Py("")
        if k is ast.Lambda:
            return Fn(e, s[1].mod, env=s)
        if k is ast.Dict:
            if not e.keys:
                return Opq("dict")
            return Opq(ast.unparse(e))
        if k is ast.Slice:
            return Opq("slice")
        raise Unsup(f"expression {k.__name__}")

    def name(self, n, s):
        env, fn = s
        if n in env:
            return env[n]
        if fn.env is not None and isinstance(fn.node, (ast.FunctionDef, ast.Lambda)):
            try:
                return self.name(n, fn.env)
            except Unsup:
                pass
        if n in ("True", "False"):
            return Py(n == "True")
        if n == "NULL":
            return Py(None)
        if fn.mod is None:      # C++
            c = getattr(fn.node, "_consts", {}).get(n)
            return Scal(num(c[0])) if c else self.cname(n)
        r = self.P.resolve(fn.mod.name, n)
        if r is None:
            if n in self.kernels:
                return Kernel(self.kernels[n], n)
            return Lib("builtins." + n)
        if r[0] == "func":
            return Fn(r[2], r[1])
        if r[0] == "ext":
            if n in self.kernels and fn.mod.kind == "pyx":
                return Kernel(self.kernels[n], n)
            return Lib(r[1])
        if r[0] == "module":
            return ModV(self.P.modules[r[1]]) if r[1] in self.P.modules else Lib(r[1])
        if r[0] == "class":
            return Opq("class " + n)
        if r[0] == "assign":
            return self.glob(r, n)
        return Opq(n)

    def glob(self, r, n):
        vals = [v for v in r[2]]
        if len(vals) > 1:
            vals = [v for v in vals if not (isinstance(v, ast.Constant) and v.value is None)]
        if len(vals) == 1:
            v = vals[0]
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "ElementwiseKernel":
                node = elementwise(v)
                return Fn(node, r[1], env=({k: Lib("numpy." + k) for k in list(FNS) + ["pow", "fmax", "fmin", "max", "min"]}, None)) if node else Opq(n)
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "LazyKernel" and v.args and isinstance(v.args[0], ast.Constant):
                nm = str(v.args[0].value)
                base = nm.split("<")[0]
                if base in self.cuda:
                    return Kernel(self.cuda[base], nm)
                return Opq(nm)
            try:
                return self.ex(v, ({}, Fn(ast.parse("lambda: 0").body[0].value, r[1])))
            except Unsup:
                pass
        return Opq(n)

    def cname(self, n):
        if n in ("exp", "log", "log1p", "tanh", "sqrt", "cosh", "erf", "abs", "pow", "max", "min", "memcpy", "memset", "sizeof") or n in ALIAS:
            return Lib("std." + n)
        if n in ("blockIdx", "blockDim", "gridDim", "threadIdx"):
            return Opq(n)
        for d in (self.cuda if self.incuda else self.kernels, ):
            if n in d:
                return Kernel(d[n], n)
        return Lib("c." + n)

    incuda = False

    def compare(self, e, s):
        l = self.ex(e.left, s)
        out = None
        for op, c in zip(e.ops, e.comparators):
            r = self.ex(c, s)
            v = self.cmp1(op, l, r)
            out = v if out is None else (Scal(("and", self.form(out), self.form(v))) if isinstance(out, (Scal, Py)) and isinstance(v, (Scal, Py)) else self.value("and", out, v))
            l = r
        return out

    def cmp1(self, op, a, b):
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            if isinstance(b, Py) and b.v is None:
                if isinstance(a, Opq):
                    return Scal(("opq", f"{a.t} is None")) if t is ast.Is else Scal(("not", ("opq", f"{a.t} is None")))
                r = isinstance(a, Py) and a.v is None
                return Py(r == (t is ast.Is))
            if isinstance(a, Arr) and isinstance(b, Arr):
                return Py((a.buf is b.buf) == (t is ast.Is))
            return Scal(("opq", f"{self.text(a)} is {self.text(b)}")) if t is ast.Is else Scal(("not", ("opq", f"{self.text(a)} is {self.text(b)}")))
        if t in (ast.In, ast.NotIn):
            f = ("opq", f"{self.text(a)} in {self.text(b)}")
            return Scal(f if t is ast.In else ("not", f))
        if isinstance(a, Opq) or isinstance(b, Opq) or isinstance(a, Tup) or isinstance(b, Tup) or isinstance(a, Py) and isinstance(a.v, str):
            if t in (ast.Eq, ast.NotEq):
                x, y = self.text(a), self.text(b)
                if x == y or x.endswith(".shape") and y.endswith(".shape"):
                    return Py(t is ast.Eq)
                f = ("opq", f"{min(x, y)} == {max(x, y)}")
                return Scal(f if t is ast.Eq else ("not", f))
            return Scal(("opq", f"{self.text(a)} {t.__name__} {self.text(b)}"))
        if isinstance(a, Py) and a.v is None or isinstance(b, Py) and b.v is None:
            return Py((isinstance(a, Py) and isinstance(b, Py) and a.v is b.v) == (t is ast.Eq))
        if t in (ast.Gt, ast.GtE):
            a, b = b, a
            t = {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[t]
        fa, fb = as_num(self.form(a)), as_num(self.form(b))
        op2 = CMPOP[t]
        if fa[0] == "num" and fb[0] == "num":
            return Py(ev((op2, fa, fb), {}))
        f = (op2, fa, fb)
        return self.new(f) if isinstance(a, Arr) or isinstance(b, Arr) else Scal(f)

    def attr(self, v, n, s):
        if isinstance(v, Arr):
            if n in ("T",):
                raise Unsup("transpose")
            if n == "data":
                return Arr(v.buf, v.cond, "pointer")
            if n in ("sum", "mean", "var", "max", "min", "astype", "copy", "reshape", "ravel", "clip", "argmax", "fill", "flatten", "__getitem__", "any", "all", "item"):
                return ("method", v, n)
            if n == "size":
                return Opq("size")
            if n in ("ndim",):
                return Opq("ndim")
            if n == "shape":
                return Opq(f"{v.buf.name}.shape")
            return Opq(f"{v.buf.name}.{n}")
        if isinstance(v, Scal):
            if n == "astype":
                return ("method", v, n)
            raise Unsup(f"attribute {n} of a number")
        if isinstance(v, Me):
            if n == "xp" or n == "_xp2":
                return Lib("numpy")
            for i, (m, c) in enumerate(self.lin):
                if i < v.skip and v.skip:
                    pass
                r = self.P.find_method(m, c, n)
                if r is not None and r[1] is c:
                    return ("self", n, 0)
            return Opq(f"self.{n}")
        if isinstance(v, tuple) and v[0] == "super":
            return ("self", n, v[1])
        if isinstance(v, Lib):
            if n in ("pi", "e") and v.name.split(".")[-1] in ("math", "numpy", "cupy", "xp"):
                return Scal(num(getattr(math, n)))
            return Lib(f"{v.name}.{n}")
        if isinstance(v, ModV):
            r = self.P.resolve(v.m.name, n)
            if r and r[0] == "func":
                return Fn(r[2], r[1])
            if r and r[0] == "assign":
                return self.glob(r, n)
            if r and r[0] == "module" and r[1] in self.P.modules:
                return ModV(self.P.modules[r[1]])
            return Lib(f"{v.m.name}.{n}")
        if isinstance(v, Opq):
            if v.t == "model" and n == "ops":
                return Me(0)
            return Opq(f"{v.t}.{n}")
        raise Unsup(f"attribute {n}")

    def sub(self, e, s):
        v = self.ex(e.value, s)
        if isinstance(v, Arr):
            i = self.index(e.slice, s)
            if i is True:
                if self.elementwise:
                    return Scal(v.buf.f)
                return Arr(v.buf, v.cond)
            if isinstance(i, tuple):
                # the selected elements; what is computed from them is only
                # ever stored back under the same selection
                a = self.new(v.buf.f)
                return a
            raise Unsup("index")
        if isinstance(v, Tup):
            i = self.ex(e.slice, s)
            if isinstance(i, Py) and isinstance(i.v, int) and -len(v.xs) <= i.v < len(v.xs):
                return v.xs[i.v]
            raise Unsup("index")
        if isinstance(v, Opq) and v.t.endswith(".shape"):
            i = self.ex(e.slice, s)
            if isinstance(i, Py) and i.v in (1, -1):
                return Scal(var("N"))
        if isinstance(v, (Opq, Lib)):
            return Opq(f"{self.text(v)}[{ast.unparse(e.slice)}]")
        raise Unsup("index")

    def ecall(self, e, s):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id not in s[0]:
            if fn.id == "super":
                return ("super", s[1].me.skip + 1)
            if fn.id == "__cast__":
                return self.ex(e.args[1], s) if len(e.args) > 1 else Scal(num(0))
            if fn.id in ("cast", "__addr__"):
                v = self.ex(e.args[-1], s)
                return v
            if fn.id in ("isinstance", "len", "hasattr", "sizeof", "type"):
                return Opq(ast.unparse(e))
        if isinstance(fn, ast.Call) and isinstance(fn.func, ast.Name) and fn.func.id in ("saxpy", "daxpy", "sscal", "dscal") and fn.func.id not in s[0]:
            return self.blas(fn.func.id[1:], [self.ex(a, s) for a in e.args], e)
        f = self.ex(fn, s)
        args = []
        for a in e.args:
            v = self.ex(a.value if isinstance(a, ast.Starred) else a, s)
            if isinstance(a, ast.Starred):
                if isinstance(v, Tup):
                    args += v.xs
                else:
                    args.append(v)
            else:
                args.append(v)
        kw = {}
        for k in e.keywords:
            v = self.ex(k.value, s)
            if k.arg is None:
                if not isinstance(v, Opq):
                    raise Unsup("**")
                continue
            kw[k.arg] = v
        if self.hooks is not None:
            r = self.hooks(self, f, args, kw, e)
            if r is not None:
                return r
        if isinstance(f, tuple) and f[0] == "self":
            return self.op(f[1], args, kw, f[2])
        if isinstance(f, tuple) and f[0] == "method":
            return self.method(f[1], f[2], args, kw, e)
        if isinstance(f, Fn):
            return self.call(f, args, kw)
        if isinstance(f, Kernel):
            return self.kernel(f, args, e)
        if isinstance(f, Lib):
            return self.lib(f.name, args, kw, e)
        if isinstance(f, Opq):
            for a in args + list(kw.values()):
                if isinstance(a, Arr) and not f.t.endswith(("dtype", "type")) and (f.t.startswith("self.") or "kernel" in f.t.lower()):
                    raise Unsup(f"call of {f.t}")
            if f.t.split(".")[-1] == "get_array_module":
                return Lib("numpy")
            return Opq(f"{f.t}({', '.join(self.text(a) for a in args)})")
        raise Unsup("call")

    def op(self, name, args, kw, skip=0):
        """A method of the backend."""
        if name == "erf":
            a = args[0] if args else kw["X"]
            return self.new(("fn", "erf", self.form(a))) if isinstance(a, Arr) else Scal(("fn", "erf", self.form(a)))
        if name.startswith("asarray") and args and isinstance(args[0], Tup) and len(args[0].xs) == 1:
            return self.new(self.form(args[0].xs[0]))
        if name.startswith("alloc"):
            z = kw.get("zeros")
            return self.new(num(0) if z is None or self.truth(z) else ("var", f"uninitialised{self.n}"))
        if name == "cblas":
            return Opq("cblas")
        if name == "reduce_sum":
            return self.new(("red", "segsum", self.form(args[0])))
        if name == "backprop_reduce_sum":
            return self.new(self.form(args[0]))
        return self.call_method(name, args, kw, skip)

    def method(self, v, n, args, kw, e):
        if n in ("sum", "mean", "var", "max", "min"):
            return self.reduce(n, v, args, kw)
        if n in ("astype", "copy", "flatten"):
            if n == "astype" and "copy" in kw:
                return v
            return self.new(v.buf.f) if isinstance(v, Arr) else v
        if n in ("reshape", "ravel"):
            return Arr(v.buf, v.cond)
        if n == "fill":
            self.store(v, self.form(args[0]), e)
            return Py(None)
        if n == "clip":
            return self.clip([v] + args, kw, e)
        return Opq(f"{v.buf.name}.{n}()")

    def reduce(self, n, v, args, kw):
        keep = kw.get("keepdims")
        ax = kw.get("axis", args[0] if args else None)
        if isinstance(ax, Py) and ax.v == 0 and n == "sum":
            return self.new(("red", "batch", self.form(v)))
        f = ("red", n, self.form(v))
        if keep is not None and not (isinstance(keep, Py) and keep.v is False) or ax is None:
            return self.new(f) if ax is not None else Scal(f)
        return self.new(f)

    def clip(self, args, kw, e):
        names = ["a", "a_min", "a_max", "out"]
        g = dict(zip(names, args)) | kw
        x = self.form(g["a"])
        lo = g.get("a_min", g.get("min"))
        hi = g.get("a_max", g.get("max"))
        f = x
        if lo is not None and not (isinstance(lo, Py) and lo.v is None):
            l = self.form(lo)
            f = where_(("lt", f, l), l, f)
        if hi is not None and not (isinstance(hi, Py) and hi.v is None):
            h = self.form(hi)
            f = where_(("lt", h, f), h, f)
        return self.out(f, g.get("out"), e, [g["a"]])

    def out(self, f, out, e, args):
        if out is not None and not (isinstance(out, Py) and out.v is None):
            if isinstance(out, Tup) and len(out.xs) == 1:
                out = out.xs[0]
            if not isinstance(out, Arr):
                raise Unsup("out")
            self.store(out, f, e)
            return out
        return self.new(f) if any(isinstance(a, Arr) for a in args) else Scal(f)

    def blas(self, n, a, e):
        """a*x + y and a*x over whole (blocks of) buffers."""
        inc = a[3:4] + a[5:6] if n == "axpy" else a[3:4]
        if any(not isinstance(i, Py) or i.v != 1 for i in inc):
            raise Unsup("stride")
        if n == "scal":
            self.store(a[2], f2("mul", self.form(a[1]), self.form(a[2])), e)
        else:
            self.store(a[4], f2("add", self.form(a[4]), f2("mul", self.form(a[1]), self.form(a[2]))), e)
        return Py(None)

    def lib(self, name, args, kw, e):
        if name.split(".")[-1] == "memset" and len(args) == 3 and isinstance(args[0], Arr) and isinstance(args[1], Py):
            self.store(args[0], self.form(args[1]), e)
            return Py(None)
        if name.split(".")[-1] in ("min", "max") and any(isinstance(a, Opq) for a in args):
            return Opq(f"{name}({', '.join(self.text(a) for a in args)})")
        n = name.split(".")[-1]
        n = ALIAS.get(n, n)
        if n in FNS and args:
            return self.out(("fn", n, as_num(self.form(args[0]))), kw.get("out", args[1] if len(args) > 1 else None), e, args)
        if n == "square":
            x = self.form(args[0])
            return self.out(f2("mul", x, x), kw.get("out"), e, args)
        if n in ("power", "pow"):
            return self.out(f2("pow", self.form(args[0]), self.form(args[1])), kw.get("out"), e, args)
        if n in ("multiply", "add", "subtract", "divide", "true_divide"):
            o = {"multiply": "mul", "add": "add", "subtract": "sub", "divide": "div", "true_divide": "div"}[n]
            return self.out(f2(o, as_num(self.form(args[0])), as_num(self.form(args[1]))), kw.get("out", args[2] if len(args) > 2 else None), e, args)
        if n == "negative":
            return self.out(f2("mul", num(-1), self.form(args[0])), kw.get("out"), e, args)
        if n == "reciprocal":
            return self.out(f2("div", num(1), self.form(args[0])), kw.get("out"), e, args)
        if n == "clip":
            return self.clip(args, kw, e)
        if n == "where" and len(args) == 3:
            return self.new(where_(self.form(args[0]), as_num(self.form(args[1])), as_num(self.form(args[2]))))
        if n in ("maximum", "minimum", "max", "min", "fmax", "fmin") and len(args) == 2 and not kw:
            a, b = self.form(args[0]), self.form(args[1])
            c = ("lt", a, b)
            return self.out(where_(c, b, a) if n in ("maximum", "max", "fmax") else where_(c, a, b), None, e, args)
        if n in ("sum", "mean", "var", "max", "min", "amax", "amin") and args and isinstance(args[0], Arr):
            return self.reduce(n.replace("amax", "max").replace("amin", "min"), args[0], args[1:], kw)
        if n in ("array", "copy", "copy_array", "ascontiguousarray", "asarray", "float64", "float32", "ascontiguous"):
            a = args[0]
            if isinstance(a, Arr):
                if n in ("asarray",):
                    return a
                return self.new(a.buf.f)
            if isinstance(a, (Scal, Py)):
                return Scal(self.form(a))
            raise Unsup(n)
        if n in ("zeros", "zeros_like", "ones", "ones_like", "full_like", "full", "empty_like", "empty"):
            if n.startswith("full"):
                return self.new(self.form(args[1]))
            if n.startswith("empty"):
                return self.new(("var", f"uninitialised{self.n}"))
            return self.new(num(0 if n.startswith("zeros") else 1))
        if n == "get_array_module":
            return Lib("numpy")
        if n in ("int", "float", "bool") and name.startswith("builtins."):
            return args[0]
        if n == "reduce" and any(isinstance(a, Opq) for a in args):
            return Opq(ast.unparse(e))
        if n in ("range", "slice"):
            return Opq(ast.unparse(e))
        if name.startswith(("builtins.", "warnings.", "math.", "functools.", "operator.")) and not any(isinstance(a, Arr) for a in args):
            if name.startswith("math.") and args:
                if n in ("pi",):
                    return Scal(num(math.pi))
            return Opq(f"{name}({', '.join(self.text(a) for a in args)})")
        raise Unsup(f"call of {name}")

    def kernel(self, k, args, e):
        """An elementwise kernel: its body is analysed with the buffers given."""
        incuda = self.cuda and k.fs is self.cuda.get(k.name.split("<")[0])
        if incuda and "<" in k.name:
            if len(args) != 3 or not isinstance(args[2], Tup):
                raise Unsup("kernel launch")
            args = args[2].xs
        fs = [f for f in k.fs if len(f.args.args) == len(args)]
        if len(fs) != 1:
            raise Unsup(f"kernel {k.name}")
        f = fs[0]
        old = self.incuda
        self.incuda = bool(incuda)
        vals = []
        for a, (n, t) in zip(args, f._ctypes.items()):
            if "*" in t and isinstance(a, Arr):
                a = Arr(a.buf, a.cond, "pointer")
            vals.append(a)
        try:
            return self.call(Fn(f, None), vals, {})
        finally:
            self.incuda = old
