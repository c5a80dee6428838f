"""Path-partitioned abstract interpretation of Python syntax trees.

Values are terms of a value-flow graph (hash-consed expressions over symbolic
inputs), closures, and abstract heap objects.  Branches on unknown conditions
partition the trace: both outcomes are analysed, and a condition that is
decided once keeps its outcome on that trace (conditions are compared by value
number; no constraint is ever solved).  Loops over unknown iterables are
analysed for a fixed number of iterations.  Calls to functions of the analysed
package are interpreted in context; calls out of it become opaque terms.
Nothing of the package is imported or executed.
"""
import ast

from .project import qualname

UNROLL = 2
MAXDEPTH = 40


class Budget(Exception):
    pass


class Stop(Exception):
    """The trace ends (raise)."""

    def __init__(self, exc, node=None):
        self.exc = exc
        self.node = node


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


# ---------------------------------------------------------------- values
class Term:
    __slots__ = ("op", "args", "key", "_h", "meta", "__weakref__")

    def __repr__(self):
        return fmt(self)

    def __hash__(self):
        return self._h


_table = {}


def _k(a):
    if isinstance(a, Term):
        return ("t", id(a))
    if isinstance(a, tuple):
        return ("u",) + tuple(_k(x) for x in a)
    if isinstance(a, (str, int, float, bool, bytes, type(None), complex)) or a is Ellipsis:
        return (type(a).__name__, a)
    return ("o", id(a))


def mk(op, *args):
    key = (op,) + tuple(_k(a) for a in args)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.key = op, args, key
        t._h = hash(key)
        t.meta = None
        _table[key] = t
    return t


def const(v):
    return mk("const", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


ABCS = {"tuple": {"Sequence", "Iterable", "Sized", "Collection", "Container", "Reversible", "Hashable"},
        "list": {"Sequence", "MutableSequence", "Iterable", "Sized", "Collection", "Container", "Reversible"},
        "dict": {"Mapping", "MutableMapping", "Iterable", "Sized", "Collection", "Container", "Reversible"},
        "set": {"Set", "MutableSet", "Iterable", "Sized", "Collection", "Container"}}


def is_const(v):
    return isinstance(v, Term) and v.op == "const"


def cval(v):
    return v.args[1]


def fmt(v, d=0):
    if isinstance(v, Term):
        if v.op == "const":
            return repr(v.args[1])
        if v.op == "sym":
            return str(v.args[0])
        if d > 4:
            return "..."
        if v.op == "attr":
            return f"{fmt(v.args[0], d)}.{v.args[1]}"
        if v.op == "sub":
            return f"{fmt(v.args[0], d+1)}[{fmt(v.args[1], d+1)}]"
        if v.op == "call":
            f, a, k = v.args[0], v.args[1], v.args[2]
            return f"{f if isinstance(f, str) else fmt(f, d+1)}({', '.join([fmt(x, d+1) for x in a] + [n + '=' + fmt(x, d+1) for n, x in k])})"
        return f"{v.op}({', '.join(fmt(a, d+1) for a in v.args)})"
    if isinstance(v, tuple):
        return "(" + ", ".join(fmt(x, d) for x in v) + ")"
    return repr(v)


class Obj:
    """Abstract heap object: list, dict, set or instance."""
    _n = 0

    shim = False

    def __init__(self, kind, cls=None, name=None):
        Obj._n += 1
        self.id = Obj._n
        self.kind = kind          # list | dict | set | inst
        self.cls = cls            # ("thinc.types", "Ragged") or ("model",)
        self.items = []           # list elements / dict (k, v) pairs
        self.open = False         # may have unknown further content
        self.fields = {}
        self.abstract = False
        self.label = name

    def __repr__(self):
        if self.kind == "list":
            return "[" + ", ".join(fmt(x, 3) for x in self.items) + ("..." if self.open else "") + "]"
        if self.kind == "inst":
            return f"<{self.label or (self.cls[-1] if self.cls else '?')}#{self.id}>"
        return f"<{self.kind}#{self.id}>"


class Frame:
    def __init__(self, parent, fn, module):
        self.vars = {}
        self.parent = parent
        self.fn = fn
        self.module = module
        self.nonlocals = set()
        self.globals = set()


class Func:
    def __init__(self, node, module, frame, bound=None, cls=None):
        self.node, self.module, self.frame = node, module, frame
        self.bound = bound
        self.cls = cls   # (Module, ClassDef) for methods

    def __repr__(self):
        return f"<func {qualname(self.node)}>"


class Partial:
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Class:
    def __init__(self, module, node):
        self.module, self.node = module, node

    def __repr__(self):
        return f"<class {self.node.name}>"


class Builtin:
    def __init__(self, name, recv=None):
        self.name, self.recv = name, recv

    def __repr__(self):
        return f"<builtin {self.name}>"


class ModRef:
    def __init__(self, name):
        self.name = name


class Event:
    __slots__ = ("kind", "node", "fn", "data", "phase", "depth", "stack")

    def __init__(self, kind, node, fn, data, phase, stack):
        self.kind, self.node, self.fn, self.data, self.phase, self.stack = kind, node, fn, data, phase, stack

    def __repr__(self):
        return f"{self.kind}@{getattr(self.node, 'lineno', '?')} {self.data}"

    def __getattr__(self, k):
        try:
            return self.data[k]
        except KeyError:
            raise AttributeError(k)

    def where(self):
        m = getattr(self.node, "_mod", None)
        return f"{m.rel if m else '?'}:{getattr(self.node, 'lineno', '?')}"

    def func(self):
        n = self.node
        while n is not None and not isinstance(n, (ast.FunctionDef, ast.Lambda)):
            n = getattr(n, "_parent", None)
        return qualname(n) if n is not None else "<module>"


META_ATTRS = {"shape", "ndim", "size", "dtype", "itemsize", "nbytes", "flags", "strides", "device",
              "device_type", "device_id", "lengths", "indices", "size_at_t", "starts_ends"}
BUILTINS = {"len", "range", "zip", "enumerate", "reversed", "list", "tuple", "dict", "set", "sum", "min", "max",
            "isinstance", "issubclass", "hasattr", "getattr", "setattr", "callable", "type", "sorted", "map", "filter",
            "any", "all", "int", "float", "str", "bool", "abs", "repr", "id", "iter", "next", "super", "print",
            "frozenset", "object", "vars", "hash", "round", "pow", "divmod", "slice", "bytes", "open", "property",
            "staticmethod", "classmethod", "delattr", "__cast__", "__addr__", "__sizeof__", "__import__", "ord", "chr",
            "NotImplemented", "locals", "globals", "format", "bytearray", "memoryview", "complex", "input"}
EXCS = {n for n in dir(__builtins__ if not isinstance(__builtins__, dict) else object)} | {
    "ValueError", "TypeError", "KeyError", "IndexError", "AttributeError", "NotImplementedError", "RuntimeError",
    "Exception", "BaseException", "StopIteration", "ImportError", "AssertionError", "NameError", "OSError",
    "KeyboardInterrupt", "ModuleNotFoundError", "DeprecationWarning", "UserWarning", "Warning", "IOError",
    "FutureWarning", "OverflowError", "ZeroDivisionError", "GeneratorExit", "PermissionError"}


CSCALARS = {"int", "float", "double", "char", "long", "short", "bint", "size_t", "Py_ssize_t", "unsigned int", "float32", "float64",
            "unsigned char", "weight_t", "reals_ft", "ints_ft", "FloatingPoint"}


class Interp:
    def __init__(self, project, prefix=(), hooks=None):
        self.P = project
        self.prefix = list(prefix)
        self.taken = []            # [(bool, cond, node)]
        self.pos = 0
        self.facts = {}
        self.events = []
        self.phase = "ctor"
        self.stack = []            # function nodes
        self.calls = []            # call nodes
        self.serial = 0
        self.hooks = hooks
        self.steps = 0
        self.maxsteps = 200000
        self.modcache = {}
        self.noinline = set()
        self.isinst = {}
        self.unroll = UNROLL
        self.globalsobj = {}

    # ------------------------------------------------------------ events
    def event(self, kind, node, **data):
        ev = Event(kind, node, self.stack[-1] if self.stack else None, data, self.phase, tuple(self.calls))
        self.events.append(ev)
        return ev

    # --------------------------------------------------------- decisions
    def fork(self, cond, node):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = True
        self.pos += 1
        self.taken.append((d, cond, node))
        return d

    def norm(self, c):
        """Return (term, polarity)."""
        pol = True
        while isinstance(c, Term):
            if c.op == "not":
                c, pol = c.args[0], not pol
            elif c.op == "cmp" and c.args[0] in ("is not", "!=", "not in", ">=", ">"):
                neg = {"is not": "is", "!=": "==", "not in": "in", ">=": "<", ">": "<="}[c.args[0]]
                c, pol = mk("cmp", neg, c.args[1], c.args[2]), not pol
            else:
                break
        return c, pol

    def truth(self, v, node):
        """Decide the truth of a value; partitions the trace if unknown."""
        s = self.static_truth(v)
        if s is not None:
            return s
        c, pol = self.norm(v if isinstance(v, Term) else self.freeze(v))
        s = self.static_truth(c)
        if s is not None:
            return s == pol
        if c in self.facts:
            return self.facts[c] == pol
        imp = self.implied(c)
        if imp is not None:
            return imp == pol
        d = self.fork(c, node)      # the truth of the normalized condition
        self.assume(c, d)
        return d == pol

    def assume(self, c, val):
        self.facts[c] = val
        if isinstance(c, Term) and c.op == "isinst" and val:
            self.isinst.setdefault(c.args[0], c.args[1])

    def implied(self, c):
        if c.op == "isinst":
            x, cl = c.args
            have = self.isinst.get(x)
            if have is not None:
                a, b = set(have), set(cl)
                if a <= b:
                    return True
                if not (a & b) and not ({"object", "?"} & (a | b)):
                    return False
        if c.op == "cmp" and c.args[0] == "is" and c.args[2] is NONE:
            x = c.args[1]
            if self.facts.get(x) is True or x in self.isinst:
                return False
        t = c
        # truthiness of x when x is None is known
        isn = mk("cmp", "is", t, NONE)
        if self.facts.get(isn) is True:
            return False
        return None

    def static_truth(self, v):
        if isinstance(v, Term):
            if v.op == "const":
                try:
                    return bool(cval(v))
                except Exception:
                    return None
            if v.op == "tuple":
                if any(isinstance(a, Term) and a.op == "star" for a in v.args):
                    return True if any(not (isinstance(a, Term) and a.op == "star") for a in v.args) else None
                return len(v.args) > 0
            if v.op == "not":
                s = self.static_truth(v.args[0])
                return None if s is None else not s
            if v.op in ("list",):
                return len(v.args) > 0
            if v.op in ("model", "funcref", "inst", "class", "childcb"):
                return True
            if v.op == "and":
                ss = [self.static_truth(a) for a in v.args]
                if any(s is False for s in ss):
                    return False
                return True if all(ss) else None
            if v.op == "or":
                ss = [self.static_truth(a) for a in v.args]
                if any(s is True for s in ss):
                    return True
                return False if all(s is False for s in ss) else None
            return None
        if isinstance(v, Obj):
            if v.kind in ("list", "dict", "set"):
                if v.items:
                    return True
                return None if v.open else False
            if v.kind == "inst":
                return True
        if isinstance(v, (Func, Partial, Class, Builtin, ModRef)):
            return True
        return None

    # ------------------------------------------------------------ freeze
    def freeze(self, v, seen=()):
        if isinstance(v, Term):
            return v
        if isinstance(v, Obj):
            if v in seen:
                return mk("cycle", v.id)
            s = seen + (v,)
            if v.kind in ("list", "set"):
                items = [self.freeze(x, s) for x in v.items]
                if v.open:
                    items.append(mk("star", mk("unknown", v.id)))
                return mk("list", *items)
            if v.kind == "dict":
                return mk("dict", *[mk("tuple", self.freeze(a, s), self.freeze(b, s)) for a, b in v.items])
            if v.cls and v.cls[0] == "model":
                return mk("model", v.id)
            if getattr(v, "shim", False):
                return mk("shim", v.id)
            if v.label:
                return mk("model", v.label)
            return mk("inst", v.cls[-1] if v.cls else "?",
                      *[mk("tuple", const(k), self.freeze(x, s)) for k, x in v.fields.items()])
        if isinstance(v, Func):
            return mk("funcref", id(v.node), self.freeze(v.bound, seen) if v.bound is not None else None,
                      _Ref(v))
        if isinstance(v, Partial):
            return mk("partial", self.freeze(v.fn, seen), tuple(self.freeze(a, seen) for a in v.args),
                      tuple((k, self.freeze(a, seen)) for k, a in v.kw))
        if isinstance(v, Class):
            return mk("class", v.node.name)
        if isinstance(v, Builtin):
            return mk("builtin", v.name, self.freeze(v.recv, seen) if v.recv is not None else None)
        if isinstance(v, ModRef):
            return mk("ext", v.name)
        if v is None:
            return NONE
        return mk("py", v)

    def thaw(self, t):
        """Callable for a frozen function."""
        if isinstance(t, Term) and t.op == "funcref":
            return t.args[2].v
        return t

    # ------------------------------------------------------------- names
    def lookup(self, name, frame, node):
        f = frame
        while f is not None:
            if name in f.vars:
                return f.vars[name]
            f = f.parent
        return self.global_name(frame.module, name, node)

    def global_name(self, module, name, node=None):
        r = self.P.resolve(module.name, name)
        if r is None:
            if name in BUILTINS:
                return Builtin(name)
            if name in ("True", "False", "None"):
                return {"True": TRUE, "False": FALSE, "None": NONE}[name]
            return mk("ext", name)
        return self.from_res(r, module, name)

    def from_res(self, r, module=None, name=None):
        k = r[0]
        if k == "func":
            return Func(r[2], r[1], None)
        if k == "class":
            return Class(r[1], r[2])
        if k == "module":
            return ModRef(r[1])
        if k == "ext":
            d = r[1]
            if d.split(".")[0] not in ("thinc",):
                return mk("ext", d)
            return mk("ext", d)
        if k == "assign":
            m, exprs = r[1], r[2]
            e = exprs[-1]
            key = (m.name, name)
            if isinstance(e, ast.Constant):
                return const(e.value)
            if isinstance(e, ast.Call) and getattr(e.func, "id", "") == "TypeVar":
                return mk("ext", "TypeVar." + (name or ""))
            if len(exprs) == 1 and isinstance(e, (ast.UnaryOp, ast.BinOp)):
                try:
                    return const(ast.literal_eval(e))
                except Exception:
                    pass
            return mk("glob", m.name, name or "?")
        return mk("ext", str(r))

    # -------------------------------------------------------- statements
    def block(self, body, fr):
        for st in body:
            self.stmt(st, fr)

    def stmt(self, st, fr):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget()
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            return
        m(st, fr)

    def st_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            v = self.ev(st.value.value, fr) if st.value.value is not None else NONE
            self.event("yield", st, value=v)
            return
        self.ev(st.value, fr)

    def st_Assign(self, st, fr):
        v = self.ev(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr, st)

    def st_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, fr), fr, st)

    def st_AugAssign(self, st, fr):
        t = st.target
        load = self.as_load(t)
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            old = self.ev(load, fr)
            v = self.ev(st.value, fr)
            ct = self.ctype(fr, t.id)
            if ct is not None and ct != "object":
                # a C variable: arithmetic on the variable itself
                new = mk("ptradd", self.freeze(old), self.freeze(v)) if ct.endswith("*") else self.binop(op, old, v, st)
                self.assign(t, new, fr, st)
            else:
                self.assign(t, self.inplace(op, old, v, st), fr, st)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, fr)
            old = self.getattr(base, t.attr, t)
            v = self.ev(st.value, fr)
            new = self.inplace(op, old, v, st)
            self.setattr(base, t.attr, new, st, aug=True)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, fr)
            idx = self.ev_index(t.slice, fr)
            old = self.subscript(base, idx, t)
            v = self.ev(st.value, fr)
            if isinstance(base, Obj):
                new = self.inplace(op, old, v, st)
                self.setitem(base, idx, new, st)
            else:
                self.event("mutate", st, target=base, how=f"augmented item assignment", value=v, index=idx)

    def ctype(self, fr, name):
        """C type of a local variable of a Cython function, if it is not a
        Python object."""
        f = fr
        while f is not None and f.fn is None:
            f = f.parent
        ct = getattr(f.fn, "_ctypes", None) if f is not None else None
        if not ct:
            return None
        c = ct.get(name)
        if c is None:
            return None
        c = c.replace("const ", "").strip()
        if "[" in c or "ndarray" in c or c in ("object", "dict", "list", "tuple", "str", "bytes", "set"):
            return None
        base = c.rstrip("*").strip()
        if c.endswith("*") or base in CSCALARS or base.endswith("_t"):
            return c
        return None

    def as_load(self, t):
        if isinstance(t, ast.Name):
            n = ast.Name(id=t.id, ctx=ast.Load())
        elif isinstance(t, ast.Attribute):
            n = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
        else:
            n = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
        ast.copy_location(n, t)
        n._mod = getattr(t, "_mod", None)
        n._parent = getattr(t, "_parent", None)
        return n

    def inplace(self, op, old, v, st):
        if isinstance(old, Obj) and old.kind == "list" and op == "Add":
            items, open_ = self.iter_values(v, st, splat=True)
            old.items.extend(items)
            old.open = old.open or open_
            self.event("mutate_obj", st, target=old, how="+=", value=v)
            return old
        if isinstance(old, Obj) and old.kind in ("set", "dict"):
            old.items.append((v, v)) if old.kind == "dict" else old.items.append(v)
            self.event("mutate_obj", st, target=old, how="op=", value=v)
            return old
        if isinstance(old, Obj) and old.kind == "inst":
            meth = {"Add": "__iadd__", "Mult": "__imul__"}.get(op)
            self.event("mutate", st, target=self.freeze(old), how=f"in-place {op}", value=v)
            return self.binop(op, old, v, st)
        r = self.fold(op, old, v)
        if r is not None:
            return r
        if self.scalar(old):
            return self.binop(op, old, v, st)
        self.event("mutate", st, target=old, how=f"in-place {op}", value=v)
        return mk("iop", op, self.freeze(old), self.freeze(v))

    def scalar(self, v):
        """Immutable scalars (and strings, tuples): `x op= y` rebinds only."""
        if not isinstance(v, Term):
            return False
        if v.op in ("const", "dim", "cmp", "not", "fstr", "tuple", "index", "isinst", "hasattr"):
            return True
        if v in self.isinst and set(self.isinst[v]) <= {"int", "float", "bool", "str", "tuple"}:
            return True
        if v.op == "call" and v.args[0] in ("len", "int", "float", "str", "bool", "min", "max", "abs", "round",
                                            "range", "sum_scalar"):
            return True
        if v.op == "attr" and v.args[1] in ("size", "ndim", "name", "itemsize"):
            return True
        if v.op == "sub" and isinstance(v.args[0], Term) and v.args[0].op == "attr" and v.args[0].args[1] == "shape":
            return True
        if v.op in ("bin", "un", "iop"):
            return all(self.scalar(a) for a in v.args[1:])
        return False

    def st_Return(self, st, fr):
        raise Ret(self.ev(st.value, fr) if st.value is not None else NONE)

    def st_If(self, st, fr):
        c = self.ev(st.test, fr)
        if self.truth(c, st.test):
            self.block(st.body, fr)
        else:
            self.block(st.orelse, fr)

    def st_For(self, st, fr):
        it = self.ev(st.iter, fr)
        items, open_ = self.iter_values(it, st.iter)
        broke = False
        for x in items:
            self.assign(st.target, x, fr, st)
            try:
                self.block(st.body, fr)
            except Brk:
                broke = True
                break
            except Cont:
                continue
        if not broke:
            self.block(st.orelse, fr)

    def st_While(self, st, fr):
        n = 0
        while True:
            c = self.ev(st.test, fr)
            s = self.static_truth(c if isinstance(c, Term) else self.freeze(c)) if not isinstance(c, Obj) else self.static_truth(c)
            if s is False:
                break
            if s is None or n >= 64:
                if n >= self.unroll:
                    break
                # enter the loop for a fixed number of iterations
            elif n > 200:
                break
            n += 1
            try:
                self.block(st.body, fr)
            except Brk:
                return
            except Cont:
                continue
        self.block(st.orelse, fr)

    def st_Try(self, st, fr):
        try:
            if st.handlers and self.hooks and getattr(self.hooks, "try_fork", None):
                skip = not self.hooks.try_fork(self, st)
            else:
                skip = False
            if skip:
                self.run_handler(st, fr, None)
            else:
                try:
                    self.block(st.body, fr)
                except Stop as e:
                    if not st.handlers:
                        raise
                    self.run_handler(st, fr, e)
                else:
                    self.block(st.orelse, fr)
        finally:
            if st.finalbody:
                self.block(st.finalbody, fr)

    def run_handler(self, st, fr, e):
        h = st.handlers[0]
        if h.name:
            fr.vars[h.name] = mk("exc", getattr(st, "lineno", 0))
        self.block(h.body, fr)

    def st_With(self, st, fr):
        for it in st.items:
            v = self.ev(it.context_expr, fr)
            r = v
            if isinstance(v, Obj) and v.kind == "inst":
                pass
            if it.optional_vars is not None:
                self.assign(it.optional_vars, mk("enter", self.freeze(r)), fr, st)
            self.event("with", st, ctx=v)
        self.block(st.body, fr)
        self.event("endwith", st, ctx=v)

    def st_Raise(self, st, fr):
        e = self.ev(st.exc, fr) if st.exc is not None else NONE
        self.event("raise", st, exc=e)
        raise Stop(e, st)

    def st_Assert(self, st, fr):
        n0 = len(self.events)
        c = self.ev(st.test, fr)
        if not isinstance(c, Term):
            return
        for part in (c.args if c.op == "and" else (c,)):
            t, pol = self.norm(part)
            s = self.static_truth(t)
            if s is None and t not in self.facts and isinstance(t, Term) and t.op in ("isinst", "cmp", "call", "sym", "attr"):
                self.assume(t, pol)

    def st_FunctionDef(self, st, fr):
        f = Func(st, fr.module, fr)
        v = f
        for d in reversed(st.decorator_list):
            dv = self.ev(d, fr)
            if isinstance(dv, Term):
                v2 = v    # external decorators (contextmanager, wraps) are transparent
            elif isinstance(dv, (Func, Partial)):
                v2 = self.call(dv, [v], [], d)
            else:
                v2 = v
            v = v2
        fr.vars[st.name] = v

    def st_ClassDef(self, st, fr):
        fr.vars[st.name] = Class(fr.module, st)

    def st_Import(self, st, fr):
        for a in st.names:
            fr.vars[a.asname or a.name.split(".")[0]] = ModRef(a.name if a.asname else a.name.split(".")[0])

    def st_ImportFrom(self, st, fr):
        base = fr.module.rel_base(st)
        for a in st.names:
            r = self.P.resolve(base, a.name) if base in self.P.modules else None
            if r is None:
                sub = f"{base}.{a.name}"
                r = ("module", sub) if sub in self.P.modules else ("ext", sub)
            fr.vars[a.asname or a.name] = self.from_res(r, fr.module, a.name)

    def st_Nonlocal(self, st, fr):
        fr.nonlocals |= set(st.names)

    def st_Global(self, st, fr):
        fr.globals |= set(st.names)

    def st_Break(self, st, fr):
        raise Brk()

    def st_Continue(self, st, fr):
        raise Cont()

    def st_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                base = self.ev(t.value, fr)
                idx = self.ev_index(t.slice, fr)
                if isinstance(base, Obj):
                    self.event("mutate_obj", st, target=base, how="del", value=idx)
                    if base.kind == "list" and is_const(idx) and isinstance(cval(idx), int) and not base.open:
                        try:
                            del base.items[cval(idx)]
                        except IndexError:
                            pass
                    elif base.kind == "dict":
                        base.items = [(k, v) for k, v in base.items if k is not idx]
                else:
                    self.event("mutate", st, target=base, how="del item", value=idx)

    # ---------------------------------------------------------- assigning
    def assign(self, t, v, fr, st):
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                self.event("set_global", st, name=t.id, value=v, module=fr.module.name)
                return
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None:
                    if t.id in f.vars:
                        f.vars[t.id] = v
                        self.event("set_nonlocal", st, name=t.id, value=v)
                        return
                    f = f.parent
            fr.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, fr, st)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, fr)
            self.setitem(base, self.ev_index(t.slice, fr), v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr, st)

    def unpack(self, elts, v, fr, st):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        seq = self.exact_items(v)
        if seq is not None:
            if star:
                i = star[0]
                tail = len(elts) - i - 1
                if len(seq) < len(elts) - 1:
                    seq = list(seq) + [mk("unknown", 0)] * (len(elts) - 1 - len(seq))
                mid = Obj("list")
                mid.items = list(seq[i: len(seq) - tail])
                vals = list(seq[:i]) + [mid] + list(seq[len(seq) - tail:] if tail else [])
            else:
                if len(seq) != len(elts):
                    raise Stop(mk("ext", "ValueError"), st)
                vals = seq
            for e, x in zip(elts, vals):
                self.assign(e, x, fr, st)
        else:
            for i, e in enumerate(elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, mk("sub", self.freeze(v), mk("slice", const(i), NONE, NONE)), fr, st)
                else:
                    self.assign(e, self.subscript(v, const(i), st), fr, st)

    def exact_items(self, v):
        if isinstance(v, Term) and v.op in ("tuple", "list"):
            if any(isinstance(a, Term) and a.op == "star" for a in v.args):
                return None
            return list(v.args)
        if isinstance(v, Obj) and v.kind == "list" and not v.open:
            return list(v.items)
        if is_const(v) and isinstance(cval(v), (str, tuple)):
            return [const(x) for x in cval(v)]
        return None

    def setattr(self, base, name, v, st, aug=False):
        if isinstance(base, Obj):
            self.event("setattr", st, target=base, name=name, value=v)
            base.fields[name] = v
            return
        self.event("setattr", st, target=base, name=name, value=v)
        if not aug:
            self.event("mutate", st, target=base, how=f"assignment to attribute {name}", value=v)

    def setitem(self, base, idx, v, st):
        if isinstance(base, Obj):
            if base.kind == "list":
                self.event("mutate_obj", st, target=base, how="[]=", value=v, index=idx)
                if is_const(idx) and isinstance(cval(idx), int) and -len(base.items) <= cval(idx) < len(base.items):
                    base.items[cval(idx)] = v
                elif isinstance(idx, Term) and idx.op == "slice" and idx.args == (NONE, NONE, NONE):
                    items, o = self.iter_values(v, st, splat=True)
                    base.items = list(items)
                else:
                    base.items.append(v)
                    base.open = True
                return
            if base.kind == "dict":
                self.event("mutate_obj", st, target=base, how="[]=", value=v, index=idx)
                idx = self.freeze(idx)
                for i, (k, _) in enumerate(base.items):
                    if k is idx:
                        base.items[i] = (k, v)
                        return
                base.items.append((idx, v))
                return
            self.event("mutate", st, target=self.freeze(base), how="item assignment", value=v, index=idx)
            base.fields.setdefault("__items__", v)
            return
        self.event("mutate", st, target=base, how="item assignment", value=v, index=idx)

    # --------------------------------------------------------- expressions
    def ev(self, e, fr):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget()
        m = getattr(self, "ex_" + type(e).__name__, None)
        if m is None:
            return mk("unknown", type(e).__name__, getattr(e, "lineno", 0))
        return m(e, fr)

    def ex_Constant(self, e, fr):
        return const(e.value) if not isinstance(e.value, bytes) else const(e.value)

    def ex_Name(self, e, fr):
        return self.lookup(e.id, fr, e)

    def ex_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr, e)

    def ex_Tuple(self, e, fr):
        return self.mktuple(self.elts(e.elts, fr))

    def mktuple(self, vals):
        return mk("tuple", *[v if isinstance(v, Term) else _wrap(self, v) for v in vals])

    def elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                items, open_ = self.iter_values(self.ev(x.value, fr), x, splat=True)
                out += items
            else:
                out.append(self.ev(x, fr))
        return out

    def ex_List(self, e, fr):
        o = Obj("list")
        o.items = self.elts(e.elts, fr)
        return o

    def ex_Set(self, e, fr):
        o = Obj("set")
        o.items = self.elts(e.elts, fr)
        return o

    def ex_Dict(self, e, fr):
        o = Obj("dict")
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, fr)
                if isinstance(src, Obj) and src.kind == "dict":
                    for a, b in src.items:
                        self.dict_put(o, a, b)
                    o.open = o.open or src.open
                else:
                    o.items.append((mk("star", self.freeze(src)), src))
                    o.open = True
            else:
                self.dict_put(o, self.freeze(self.ev(k, fr)), self.ev(v, fr))
        return o

    def dict_put(self, o, k, v):
        for i, (a, _) in enumerate(o.items):
            if a is k:
                o.items[i] = (k, v)
                return
        o.items.append((k, v))

    def ex_BinOp(self, e, fr):
        return self.binop(type(e.op).__name__, self.ev(e.left, fr), self.ev(e.right, fr), e)

    def fold(self, op, a, b):
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            try:
                if op == "Add":
                    return const(x + y)
                if op == "Sub":
                    return const(x - y)
                if op == "Mult":
                    return const(x * y)
                if op == "FloorDiv":
                    return const(x // y)
                if op == "Mod":
                    return const(x % y)
                if op == "Div":
                    return const(x / y)
                if op == "Pow":
                    return const(x ** y)
            except Exception:
                return None
        return None

    def binop(self, op, a, b, e):
        r = self.fold(op, a, b)
        if r is not None:
            return r
        if op == "Add":
            ia, ib = self.exact_items(a), self.exact_items(b)
            la = isinstance(a, Obj) and a.kind == "list"
            if la and ib is not None:
                o = Obj("list")
                o.items = list(a.items) + list(ib)
                o.open = a.open
                return o
            if isinstance(a, Term) and a.op == "tuple" and isinstance(b, Term) and b.op == "tuple":
                return mk("tuple", *(a.args + b.args))
        if op == "Mult" and isinstance(a, Obj) and a.kind == "list" and is_const(b):
            o = Obj("list")
            o.items = list(a.items) * min(cval(b), 8)
            return o
        if isinstance(a, Obj) and a.kind == "inst":
            mname = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "RShift": "__rshift__"}.get(op)
            if mname and a.cls and a.cls[0] != "model":
                mt = self.method(a, mname)
                if mt is not None:
                    return self.call(mt, [b], [], e)
        if isinstance(a, Obj) and a.cls and a.cls[0] == "model" and self.hooks is not None:
            r = self.hooks.model_binop(self, op, a, b, e)
            if r is not None:
                return r
        fa, fb = self.freeze(a), self.freeze(b)
        return mk("bin", op, fa, fb)

    def ex_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            s = self.static_truth(v)
            if s is not None:
                return const(not s)
            return mk("not", self.freeze(v))
        if is_const(v):
            try:
                if isinstance(e.op, ast.USub):
                    return const(-cval(v))
                if isinstance(e.op, ast.UAdd):
                    return v
                if isinstance(e.op, ast.Invert):
                    return const(~cval(v))
            except Exception:
                pass
        return mk("un", type(e.op).__name__, self.freeze(v))

    def ex_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        vals = []
        # Short-circuit on what is statically known or already decided.
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            s = self.known(v)
            last = i == len(e.values) - 1
            if s is None and not last:
                # The value of the expression may depend on it: partition.
                s = self.truth(v, x)
            if isand:
                if s is False:
                    return v if not isinstance(v, Term) or v.op != "not" else FALSE
                if last:
                    return v
            else:
                if s is True:
                    return v
                if last:
                    return v
        return v

    def known(self, v):
        s = self.static_truth(v)
        if s is not None:
            return s
        c, pol = self.norm(v if isinstance(v, Term) else self.freeze(v))
        s = self.static_truth(c)
        if s is not None:
            return s == pol
        if c in self.facts:
            return self.facts[c] == pol
        imp = self.implied(c)
        if imp is not None:
            return imp == pol
        return None

    def ex_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            res.append(self.compare(type(op).__name__, left, right))
            left = right
        if len(res) == 1:
            return res[0]
        ss = [self.static_truth(x) for x in res]
        if any(s is False for s in ss):
            return FALSE
        if all(s is True for s in ss):
            return TRUE
        return mk("and", *res)

    CMPN = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">=", "Is": "is", "IsNot": "is not",
            "In": "in", "NotIn": "not in"}

    def compare(self, op, a, b):
        n = self.CMPN[op]
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            try:
                if n in ("==", "is"):
                    return const(x == y)
                if n in ("!=", "is not"):
                    return const(x != y)
                if n == "<":
                    return const(x < y)
                if n == "<=":
                    return const(x <= y)
                if n == ">":
                    return const(x > y)
                if n == ">=":
                    return const(x >= y)
                if n == "in":
                    return const(x in y)
                if n == "not in":
                    return const(x not in y)
            except Exception:
                pass
        if n in ("is", "is not", "==", "!="):
            neg = n in ("is not", "!=")
            known = self.same(a, b)
            if known is not None:
                return const(known != neg)
        if n in ("in", "not in"):
            neg = n == "not in"
            r = self.contains(b, a)
            if r is not None:
                return const(r != neg)
        fa, fb = self.freeze(a), self.freeze(b)
        if n in (">", ">="):
            # orient the comparison, so that both spellings agree
            n, fa, fb = {">": "<", ">=": "<="}[n], fb, fa
        return mk("cmp", n, fa, fb)

    def nonnull(self, v):
        if isinstance(v, (Obj, Func, Partial, Class, Builtin, ModRef)):
            return True
        if isinstance(v, Term):
            if v.op in ("tuple", "list", "dict", "inst", "bin", "iop", "un", "fstr", "childout", "childcb", "param",
                        "cbout", "dim", "funcref", "model", "class", "slice", "cmp", "ops", "xp", "partial"):
                return True
            if v.op == "const":
                return cval(v) is not None
            if v.op == "sub" and isinstance(v.args[0], Term) and v.args[0].op == "attr" and v.args[0].args[1] == "shape":
                return True
            if v.op == "call" and isinstance(v.args[0], str) and v.args[0].startswith(("ops.", "xp.", "numpy.")):
                return True
        return None

    def same(self, a, b):
        """Is `a is b`? None if unknown."""
        for x, y in ((a, b), (b, a)):
            if y is NONE:
                if x is NONE:
                    return True
                if self.nonnull(x):
                    return False
                if isinstance(x, Term) and x in self.isinst:
                    return False
                return None
        if isinstance(a, Func) and isinstance(b, Func):
            return a.node is b.node
        if isinstance(a, Class) and isinstance(b, Class):
            return a.node is b.node
        if isinstance(a, Obj) and isinstance(b, Obj) and a is b:
            return True
        if isinstance(a, Term) and a is b and a.op != "call":
            return True
        if isinstance(a, (Func, Class)) and isinstance(b, (Func, Class)):
            return False
        return None

    def contains(self, seq, x):
        fx = self.freeze(x)
        if isinstance(seq, Obj) and seq.kind == "dict":
            if any(k is fx for k, _ in seq.items):
                return True
            if not seq.open and is_const(fx) and all(is_const(k) for k, _ in seq.items):
                return False
            return None
        it = self.exact_items(seq)
        if it is not None:
            fs = [self.freeze(i) for i in it]
            if any(i is fx for i in fs):
                return True
            if is_const(fx) and all(is_const(i) for i in fs):
                return False
        return None

    def ex_IfExp(self, e, fr):
        c = self.ev(e.test, fr)
        if self.truth(c, e.test):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def ex_Lambda(self, e, fr):
        return Func(e, fr.module, fr)

    def ex_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.freeze(self.ev(v.value, fr)))
            else:
                parts.append(const(v.value))
        plain = all(isinstance(v, ast.Constant) or v.conversion == -1 and v.format_spec is None for v in e.values)
        if all(is_const(p) and (isinstance(cval(p), str) or plain and type(cval(p)) is int) for p in parts):
            return const("".join(str(cval(p)) for p in parts))
        return mk("fstr", *parts)

    def ex_FormattedValue(self, e, fr):
        return mk("fstr", self.freeze(self.ev(e.value, fr)))

    def ex_Starred(self, e, fr):
        return mk("star", self.freeze(self.ev(e.value, fr)))

    def ex_Slice(self, e, fr):
        return self.ev_index(e, fr)

    def ev_index(self, s, fr):
        if isinstance(s, ast.Slice):
            f = lambda x: NONE if x is None else self.freeze(self.ev(x, fr))
            return mk("slice", f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return mk("tuple", *[self.freeze(self.ev_index(x, fr)) for x in s.elts])
        return self.ev(s, fr)

    def ex_Subscript(self, e, fr):
        base = self.ev(e.value, fr)
        if isinstance(base, (Class,)) or (isinstance(base, Term) and base.op == "ext" and str(base.args[0]).startswith("typing")):
            return base
        return self.subscript(base, self.ev_index(e.slice, fr), e)

    def subscript(self, base, idx, e):
        fi = self.freeze(idx)
        if isinstance(base, Obj):
            if base.kind == "list":
                r = self.seq_get(base.items, fi, base.open, aslist=True)
                if r is not None:
                    return r
                return mk("sub", self.freeze(base), fi)
            if base.kind == "dict":
                for k, v in reversed(base.items):
                    if k is fi:
                        return v
                if not base.open and is_const(fi) and all(is_const(k) for k, _ in base.items):
                    raise Stop(mk("ext", "KeyError"), e)
                return mk("sub", self.freeze(base), fi)
            if base.kind == "inst" and base.cls and base.cls[0] != "model":
                mt = self.method(base, "__getitem__")
                if mt is not None:
                    return self.call(mt, [idx], [], e)
            return mk("sub", self.freeze(base), fi)
        if isinstance(base, Term):
            if base.op in ("tuple", "list"):
                r = self.seq_get([_unwrap(a) for a in base.args], fi, any(isinstance(a, Term) and a.op == "star" for a in base.args))
                if r is not None:
                    return r
            if base.op == "dict":
                for t in base.args:
                    if t.args[0] is fi:
                        return _unwrap(t.args[1])
            if is_const(base) and isinstance(cval(base), (str, tuple)) and is_const(fi):
                try:
                    return const(cval(base)[cval(fi)])
                except Exception:
                    pass
            if base.op == "sub" and isinstance(base.args[1], Term) and base.args[1].op == "slice" and is_const(fi):
                # x[a:][i] -> x[a+i] for constant non-negative bounds
                lo, hi, step = base.args[1].args
                if step is NONE and isinstance(cval(fi), int) and cval(fi) >= 0 and (lo is NONE or (
                        is_const(lo) and isinstance(cval(lo), int) and cval(lo) >= 0)):
                    off = 0 if lo is NONE else cval(lo)
                    return mk("sub", base.args[0], const(off + cval(fi)))
            return mk("sub", base, fi)
        return mk("sub", self.freeze(base), fi)

    def seq_get(self, items, fi, open_, aslist=False):
        if is_const(fi) and isinstance(cval(fi), int) and not isinstance(cval(fi), bool):
            i = cval(fi)
            if open_:
                if 0 <= i < len(items) and not any(isinstance(x, Term) and x.op == "star" for x in items[: i + 1]):
                    return items[i]
                return None
            if -len(items) <= i < len(items):
                return items[i]
            return None
        if isinstance(fi, Term) and fi.op == "slice" and not open_ and all(a is NONE or is_const(a) for a in fi.args):
            s = slice(*[None if a is NONE else cval(a) for a in fi.args])
            try:
                sub = items[s]
            except Exception:
                return None
            if aslist:
                o = Obj("list")
                o.items = list(sub)
                return o
            return mk("tuple", *[x if isinstance(x, Term) else _wrap(self, x) for x in sub])
        return None

    # -- comprehensions -----------------------------------------------------
    def comp(self, e, fr, add):
        f2 = Frame(fr, fr.fn, fr.module)

        def rec(gens):
            if not gens:
                add(f2)
                return
            g = gens[0]
            items, open_ = self.iter_values(self.ev(g.iter, f2), g.iter)
            for x in items:
                self.assign(g.target, x, f2, e)
                ok = True
                for c in g.ifs:
                    if not self.truth(self.ev(c, f2), c):
                        ok = False
                        break
                if ok:
                    rec(gens[1:])
        rec(e.generators)

    def ex_ListComp(self, e, fr):
        o = Obj("list")
        self.comp(e, fr, lambda f: o.items.append(self.ev(e.elt, f)))
        return o

    ex_GeneratorExp = ex_ListComp

    def ex_SetComp(self, e, fr):
        o = Obj("set")
        self.comp(e, fr, lambda f: o.items.append(self.ev(e.elt, f)))
        return o

    def ex_DictComp(self, e, fr):
        o = Obj("dict")
        self.comp(e, fr, lambda f: self.dict_put(o, self.freeze(self.ev(e.key, f)), self.ev(e.value, f)))
        return o

    def ex_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr, e)
        return v

    def ex_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else NONE
        self.event("yield", e, value=v)
        return NONE

    def ex_Await(self, e, fr):
        return self.ev(e.value, fr)

    # -- iteration ------------------------------------------------------------
    def iter_values(self, v, node, splat=False):
        """(values, open): the elements an iteration over v is analysed for."""
        if isinstance(v, Obj):
            if v.kind in ("list", "set"):
                items = []
                for x in v.items:
                    if isinstance(x, Term) and x.op == "star":
                        items += [self.subscript(x.args[0], const(i), node) for i in range(self.unroll)]
                    else:
                        items.append(x)
                return items, v.open
            if v.kind == "dict":
                return [k for k, _ in v.items], v.open
            if v.kind == "inst" and v.cls and v.cls[0] != "model":
                mt = self.method(v, "__iter__")
                if mt is None and self.method(v, "__getitem__") is not None:
                    return [self.subscript(v, const(i), node) for i in range(self.unroll)], True
            fz = self.freeze(v)
            return [mk("sub", fz, const(i)) for i in range(self.unroll)], True
        if isinstance(v, Term):
            if v.op in ("tuple", "list"):
                items = []
                for x in v.args:
                    if isinstance(x, Term) and x.op == "star":
                        items += [self.subscript(x.args[0], const(i), node) for i in range(self.unroll)]
                    else:
                        items.append(_unwrap(x))
                return items, False
            if v.op == "const" and isinstance(cval(v), (str, tuple, list, bytes)):
                return [const(x) for x in cval(v)], False
            if v.op == "call" and v.args[0] == "range":
                a = v.args[1]
                if all(is_const(x) for x in a):
                    r = range(*[cval(x) for x in a])
                    return [const(i) for i in list(r)[:16]], len(r) > 16
                start = a[0] if len(a) > 1 else const(0)
                if len(a) <= 2 and is_const(start):
                    return [const(cval(start) + i) for i in range(self.unroll)], True
                return [mk("index", v, i) for i in range(self.unroll)], True
            return [self.subscript(v, const(i), node) for i in range(self.unroll)], True
        fz = self.freeze(v)
        return [mk("sub", fz, const(i)) for i in range(self.unroll)], True

    # ----------------------------------------------------------- attributes
    def method(self, obj, name):
        if obj.cls and obj.cls[0] == "cls":
            mod, node = obj.cls[1], obj.cls[2]
            r = self.P.find_method(mod, node, name)
            if r:
                m, c, fn = r
                return Func(fn, m, None, bound=obj, cls=(m, c))
        return None

    def getattr(self, base, name, e):
        if self.hooks is not None:
            r = self.hooks.getattr(self, base, name, e)
            if r is not None:
                return r
        if isinstance(base, Obj):
            if name in base.fields:
                return base.fields[name]
            if base.kind in ("list", "dict", "set"):
                return Builtin(f"{base.kind}.{name}", base)
            if base.cls and base.cls[0] == "cls":
                mod, node = base.cls[1], base.cls[2]
                r = self.P.find_method(mod, node, name)
                if r:
                    m, c, fn = r
                    f = Func(fn, m, None, bound=base, cls=(m, c))
                    decs = [ast.unparse(d) for d in fn.decorator_list]
                    if any(d.endswith("property") for d in decs):
                        return self.call(f, [], [], e)
                    if "staticmethod" in decs:
                        f.bound = None
                    if "classmethod" in decs:
                        f.bound = Class(mod, node)
                    return f
                for m, c in self.P.mro(mod, node)[0]:
                    for st in c.body:
                        if isinstance(st, ast.Assign) and any(getattr(t, "id", None) == name for t in st.targets):
                            return self.ev(st.value, Frame(None, None, m))
                        if isinstance(st, ast.AnnAssign) and getattr(st.target, "id", None) == name and st.value is not None:
                            return self.ev(st.value, Frame(None, None, m))
            return mk("attr", self.freeze(base), name)
        if isinstance(base, ModRef):
            if base.name in self.P.modules:
                r = self.P.resolve(base.name, name)
                if r is not None:
                    return self.from_res(r, None, name)
                sub = base.name + "." + name
                if sub in self.P.modules:
                    return ModRef(sub)
            return mk("ext", base.name + "." + name)
        if isinstance(base, Class):
            r = self.P.find_method(base.module, base.node, name)
            if r:
                m, c, fn = r
                f = Func(fn, m, None, cls=(m, c))
                decs = [ast.unparse(d) for d in fn.decorator_list]
                if "classmethod" in decs:
                    f.bound = base
                return f
            for m, c in self.P.mro(base.module, base.node)[0]:
                for st in c.body:
                    v = getattr(st, "value", None)
                    ts = getattr(st, "targets", [getattr(st, "target", None)])
                    if isinstance(st, (ast.Assign, ast.AnnAssign)) and v is not None and any(getattr(t, "id", None) == name for t in ts):
                        return mk("clsattr", base.node.name, name)
            return mk("attr", mk("class", base.node.name), name)
        if isinstance(base, Term):
            if base.op == "ext":
                return mk("ext", base.args[0] + "." + name)
            if base.op == "inst":
                for t in base.args[1:]:
                    if t.args[0] is const(name):
                        return _unwrap(t.args[1])
            if base.op == "pyobj":
                return self.getattr(base.args[0].v, name, e)
            return mk("attr", base, name)
        return mk("attr", self.freeze(base), name)

    # ----------------------------------------------------------------- calls
    def ex_Call(self, e, fr):
        fn = e.func
        if isinstance(fn, ast.Name) and fn.id == "super" and not e.args:
            return self.do_super(fr)
        f = self.ev(fn, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                ex = self.exact_items(v)
                if ex is not None:
                    args += [_unwrap(x) for x in ex]
                else:
                    args.append(mk("star", self.freeze(v)) if not (isinstance(v, Obj) and v.kind == "list") else mk("star", self.freeze(v)))
            else:
                args.append(self.ev(a, fr))
        kw = []
        for k in e.keywords:
            v = self.ev(k.value, fr)
            if k.arg is None:
                if isinstance(v, Obj) and v.kind == "dict" and not v.open and all(
                        is_const(a) and isinstance(cval(a), str) for a, _ in v.items):
                    kw += [(cval(a), b) for a, b in v.items]
                else:
                    kw.append(("**", v))
            else:
                kw.append((k.arg, v))
        return self.call(f, args, kw, e)

    def do_super(self, fr):
        f = fr
        while f is not None and not getattr(f, "owner", None):
            f = f.parent
        if f is None:
            return mk("ext", "super()")
        o = Obj("inst", ("super", f.owner, f.selfval))
        o.label = "super"
        return o

    def call(self, f, args, kw, e):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget()
        if self.hooks is not None:
            r = self.hooks.call(self, f, args, kw, e)
            if r is not None:
                return r
        f = self.thaw(f) if isinstance(f, Term) else f
        if isinstance(f, Term) and f.op == "pyobj":
            f = f.args[0].v
        if isinstance(f, Term) and f.op == "partial":
            return self.call(self.thaw(f.args[0]), list(f.args[1]) + args, list(f.args[2]) + kw, e)
        if isinstance(f, Partial):
            names = {k for k, _ in kw}
            return self.call(f.fn, list(f.args) + args, [x for x in f.kw if x[0] not in names] + kw, e)
        if isinstance(f, Func):
            return self.call_func(f, args, kw, e)
        if isinstance(f, Class):
            return self.construct(f, args, kw, e)
        if isinstance(f, Builtin):
            r = self.builtin(f, args, kw, e)
            if r is not None:
                return r
            nm = f.name
            if f.recv is not None:
                return self.opaque(nm, [f.recv] + args, kw, e)
            return self.opaque(nm, args, kw, e)
        if isinstance(f, Obj) and f.kind == "inst":
            mt = self.method(f, "__call__")
            if mt is not None:
                return self.call(mt, args, kw, e)
            return self.opaque(self.freeze(f), args, kw, e)
        if isinstance(f, Term) and f.op == "ext":
            return self.ext_call(f.args[0], args, kw, e)
        if isinstance(f, Term) and f.op == "attr":
            return self.meth_call(f, args, kw, e)
        if isinstance(f, Term) and f.op == "call" and f.args[0] == "type" and len(args) == 1 and not kw:
            ex = self.exact_items(args[0])
            if ex is not None:
                return self.mktuple([_unwrap(x) for x in ex])
        return self.opaque(f, args, kw, e)

    def opaque(self, f, args, kw, e):
        fa = tuple(self.freeze(a) for a in args)
        fk = tuple((k, self.freeze(v)) for k, v in kw)
        name = f if isinstance(f, str) else self.freeze(f)
        t = mk("call", name, fa, fk)
        self.event("call", e, name=name, args=args, kw=kw, result=t)
        return t

    def fresh(self, name, args, kw, e):
        self.serial += 1
        fa = tuple(self.freeze(a) for a in args)
        fk = tuple((k, self.freeze(v)) for k, v in kw)
        t = mk("call", name, fa, fk, self.serial)
        self.event("call", e, name=name, args=args, kw=kw, result=t)
        return t

    def meth_call(self, f, args, kw, e):
        """Method call on an opaque value."""
        base, name = f.args
        nm = "." + name
        if name in ("copy",) and not args:
            return self.fresh(nm, [base], kw, e)
        t = self.opaque(nm, [base] + args, kw, e)
        return t

    def ext_call(self, dotted, args, kw, e):
        last = dotted.split(".")[-1]
        if dotted.endswith("typing.cast") or dotted == "cast":
            return args[1]
        if last == "partial" and dotted.startswith("functools"):
            return Partial(args[0], args[1:], kw)
        if dotted in ("copy.deepcopy", "copy.copy") and args:
            return self.fresh(dotted, args, kw, e)
        if dotted == "itertools.chain" or dotted.endswith("itertools.chain"):
            o = Obj("list")
            for a in args:
                items, op = self.iter_values(a, e)
                o.items += items
            return o
        if dotted == "itertools.chain.from_iterable" and args:
            o = Obj("list")
            items, op = self.iter_values(args[0], e)
            for a in items:
                i2, _ = self.iter_values(a, e)
                o.items += i2
            return o
        if last in ("TypeVar",):
            return mk("ext", "TypeVar")
        if dotted.startswith("collections.") and last in ("defaultdict", "OrderedDict", "Counter", "deque"):
            o = Obj("dict" if last != "deque" else "list")
            if last == "deque" and args:
                o.items, o.open = self.iter_values(args[0], e)
            return o
        return self.opaque(dotted, args, kw, e)

    def bind(self, f, args, kw, e):
        """Bind call arguments to parameters -> dict or None."""
        a = f.node.args
        pos = [x.arg for x in list(getattr(a, "posonlyargs", [])) + list(a.args)]
        env = {}
        args = list(args)
        if f.bound is not None:
            args = [f.bound] + args
        rest = []
        i = 0
        for v in args:
            if isinstance(v, Term) and v.op == "star":
                # unknown number of further arguments: fill what is left
                src = v.args[0]
                j = 0
                while i < len(pos) and pos[i] not in dict(kw):
                    env[pos[i]] = self.subscript(src, const(j), e)
                    i += 1
                    j += 1
                if a.vararg is not None:
                    rest.append(mk("star", src if j == 0 else mk("sub", src, mk("slice", const(j), NONE, NONE))))
                continue
            if i < len(pos):
                env[pos[i]] = v
                i += 1
            else:
                rest.append(v)
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = []
        for k, v in kw:
            if k == "**":
                extra.append((k, v))
            elif k in pos or k in kwonly:
                env[k] = v
            else:
                extra.append((k, v))
        mod = f.module
        dframe = f.frame or Frame(None, None, mod)
        defaults = list(a.defaults)
        for name, d in zip(pos[len(pos) - len(defaults):], defaults):
            if name not in env:
                env[name] = self.ev(d, dframe)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env:
                env[x.arg] = self.ev(d, dframe) if d is not None else mk("unknown", "missing", x.arg)
        for p in pos:
            if p not in env:
                env[p] = mk("unknown", "missing", p)
        if a.vararg is not None:
            env[a.vararg.arg] = self.mktuple(rest)
        if a.kwarg is not None:
            o = Obj("dict")
            for k, v in extra:
                if k == "**":
                    if isinstance(v, Obj) and v.kind == "dict":
                        o.items += v.items
                        o.open = o.open or v.open
                    else:
                        o.items.append((mk("star", self.freeze(v)), v))
                        o.open = True
                else:
                    o.items.append((const(k), v))
            env[a.kwarg.arg] = o
        return env

    def call_func(self, f, args, kw, e):
        node = f.node
        if self.stack.count(node) >= 1 and self.stack.count(node) >= (2 if self.hooks and getattr(self.hooks, "recurse", False) else 1):
            return self.opaque(mk("rec", qualname(node)), ([f.bound] if f.bound is not None else []) + args, kw, e)
        if len(self.stack) > MAXDEPTH:
            return self.opaque(mk("deep", qualname(node)), args, kw, e)
        env = self.bind(f, args, kw, e)
        fr = Frame(f.frame, node, f.module)
        fr.vars.update(env)
        if f.cls is not None:
            fr.owner = f.cls
            fr.selfval = f.bound
        self.stack.append(node)
        self.calls.append(e)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            is_gen = getattr(node, "_is_gen", None)
            if is_gen is None:
                is_gen = node._is_gen = _has_yield(node)
            if is_gen:
                return self.call_gen(f, node, fr, e)
            try:
                self.block(node.body, fr)
            except Ret as r:
                return r.v
            return NONE
        finally:
            self.stack.pop()
            self.calls.pop()

    def call_gen(self, f, node, fr, e):
        """A generator: run its body and collect what it yields."""
        n0 = len(self.events)
        o = Obj("list")
        if any("contextmanager" in ast.unparse(d) for d in getattr(node, "decorator_list", [])):
            return self.opaque(mk("ctxmgr", qualname(node)), [x for x in fr.vars.values()], [], e)
        try:
            self.block(node.body, fr)
        except Ret:
            pass
        for ev in self.events[n0:]:
            if ev.kind == "yield" and ev.fn is node:
                o.items.append(ev.data["value"])
        return o

    def construct(self, c, args, kw, e):
        node, mod = c.node, c.module
        decs = [ast.unparse(d) for d in node.decorator_list]
        o = Obj("inst", ("cls", mod, node, node.name))
        isdc = False
        for m, k in self.P.mro(mod, node)[0]:
            if any("dataclass" in ast.unparse(d) for d in k.decorator_list):
                isdc = True
        init = self.P.find_method(mod, node, "__init__")
        if init:
            m, k, fn = init
            self.call_func(Func(fn, m, None, bound=o, cls=(m, k)), args, kw, e)
        elif isdc:
            names, defaults = [], {}
            for m, k in reversed(self.P.mro(mod, node)[0]):
                for st in k.body:
                    if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                        if "ClassVar" in ast.unparse(st.annotation):
                            continue
                        if st.target.id not in names:
                            names.append(st.target.id)
                        if st.value is not None:
                            defaults[st.target.id] = (m, st.value)
            for n, v in zip(names, args):
                if isinstance(v, Term) and v.op == "star":
                    break
                o.fields[n] = v
            for i, v in enumerate(args):
                if isinstance(v, Term) and v.op == "star":
                    for j, n in enumerate(names[i:]):
                        o.fields[n] = self.subscript(v.args[0], const(j), e)
                    break
            for k2, v in kw:
                if k2 == "**":
                    continue
                o.fields[k2] = v
            for n in names:
                if n not in o.fields and n in defaults:
                    m, dv = defaults[n]
                    o.fields[n] = self.ev(dv, Frame(None, None, m)) if not isinstance(dv, ast.Call) else mk("default", n)
            post = self.P.find_method(mod, node, "__post_init__")
            if post:
                m, k, fn = post
                self.call_func(Func(fn, m, None, bound=o, cls=(m, k)), [], [], e)
        else:
            if self.P.mro(mod, node)[1]:
                for i, a in enumerate(args):
                    o.fields[f"__arg{i}"] = a
        self.event("construct", e, cls=node.name, args=args, kw=kw, result=o)
        return o

    def clsnames(self, v):
        if isinstance(v, Class):
            return [v.node.name]
        if isinstance(v, Builtin):
            return [v.name]
        it = self.exact_items(v)
        if it is not None:
            out = []
            for x in it:
                out += self.clsnames(_unwrap(x))
            return out
        if isinstance(v, Term):
            if v.op == "ext":
                return [v.args[0].split(".")[-1]]
            if v.op == "attr":
                return [str(v.args[1])]
        return ["?"]

    KINDS = {"list": "list", "dict": "dict", "set": "set"}

    def is_instance(self, x, names):
        if isinstance(x, Obj):
            if x.kind in ("list", "dict", "set"):
                if x.kind in names or ABCS[x.kind] & set(names):
                    return True
                return None if "?" in names else False
            if x.cls and x.cls[0] == "cls":
                cn = {c.name for _, c in self.P.mro(x.cls[1], x.cls[2])[0]}
                if cn & set(names):
                    return True
                return None if "?" in names else False
            if x.cls and x.cls[0] == "model":
                return True if "Model" in names else (None if "?" in names else False)
        if isinstance(x, Term):
            if x.op == "tuple":
                return True if "tuple" in names or ABCS["tuple"] & set(names) else (None if "?" in names else False)
            if x.op == "list":
                return True if "list" in names or ABCS["list"] & set(names) else (None if "?" in names else False)
            if x.op == "inst":
                return True if x.args[0] in names else (None if "?" in names else False)
            if x.op == "slice":
                return True if "slice" in names else (None if "?" in names else False)
            if x.op == "const":
                tn = type(cval(x)).__name__
                if tn in names:
                    return True
                if tn == "bool" and "int" in names:
                    return True
                return None if "?" in names or "Sized" in names else False
        if isinstance(x, (Func, Partial)):
            return None if "?" in names or "Callable" in names else False
        return None

    def builtin(self, b, args, kw, e):
        n = b.name
        if b.recv is not None:
            return self.obj_method(b, args, kw, e)
        a0 = args[0] if args else None
        if n == "__cast__":
            return mk("ccast", cval(args[0]), self.freeze(args[1]))
        if n == "__addr__":
            return mk("addr", self.freeze(args[0]))
        if n == "len" and args:
            it = self.exact_items(a0)
            if it is not None:
                return const(len(it))
            if isinstance(a0, Obj) and a0.kind in ("dict", "set") and not a0.open:
                return const(len(a0.items))
            if isinstance(a0, Obj) and a0.kind == "inst":
                mt = self.method(a0, "__len__")
                if mt is not None:
                    return self.call(mt, [], [], e)
            return mk("call", "len", (self.freeze(a0),), ())
        if n == "range":
            return mk("call", "range", tuple(self.freeze(a) for a in args), ())
        if n in ("list", "tuple", "iter", "sorted", "reversed", "set", "frozenset"):
            if not args:
                o = Obj("list" if n != "set" else "set")
                return o if n != "tuple" else mk("tuple")
            it = self.exact_items(a0)
            if it is None and isinstance(a0, Obj) and a0.kind == "dict" and not a0.open:
                it = [k for k, _ in a0.items]
            if it is not None and n != "sorted":
                it = [_unwrap(x) for x in it]
                if n == "reversed":
                    it = it[::-1]
                if n == "tuple":
                    return self.mktuple(it)
                o = Obj("list" if n != "set" else "set")
                o.items = it
                return o
            if n == "reversed" and isinstance(a0, Term) and a0.op == "call" and a0.args[0] == "range":
                items, open_ = self.iter_values(a0, e)
                o = Obj("list")
                o.items = items[::-1]
                return o
            if n in ("list", "tuple") and isinstance(a0, Term) and a0.op == "sub" and False:
                return a0
            return mk("call", n, (self.freeze(a0),), tuple((k, self.freeze(v)) for k, v in kw))
        if n == "zip":
            # exact only if all are exact
            its = []
            exact = True
            for a in args:
                if isinstance(a, Term) and a.op == "star":
                    src = a.args[0]
                    ex = self.exact_items(src)
                    if ex is None:
                        its = None
                        break
                    its += [self.exact_items(_unwrap(x)) for x in ex]
                else:
                    its.append(self.exact_items(a) if self.exact_items(a) is not None else ("?", a))
            if its is None:
                return self.opaque("zip", args, kw, e)
            lens = [len(x) for x in its if not isinstance(x, tuple) and x is not None]
            n2 = min(lens) if lens else self.unroll
            cols = []
            for x in its:
                if x is None:
                    return self.opaque("zip", args, kw, e)
                if isinstance(x, tuple):
                    vals, _ = self.iter_values(x[1], e)
                    if len(vals) < n2:
                        vals = vals + [self.subscript(x[1], const(i), e) for i in range(len(vals), n2)]
                    cols.append(vals[:n2])
                else:
                    cols.append([_unwrap(y) for y in x][:n2])
            o = Obj("list")
            o.items = [self.mktuple([c[i] for c in cols]) for i in range(n2)]
            return o
        if n == "enumerate":
            items, open_ = self.iter_values(a0, e)
            o = Obj("list")
            st = 0
            if len(args) > 1 and is_const(args[1]):
                st = cval(args[1])
            o.items = [self.mktuple([const(i + st), x]) for i, x in enumerate(items)]
            return o
        if n == "map" and len(args) >= 2:
            items, open_ = self.iter_values(args[1], e)
            o = Obj("list")
            o.items = [self.call(a0, [x], [], e) for x in items]
            return o
        if n == "dict":
            o = Obj("dict")
            if args:
                if isinstance(a0, Obj) and a0.kind == "dict":
                    o.items = list(a0.items)
                    o.open = a0.open
                else:
                    it = self.exact_items(a0)
                    if it is not None:
                        for p in it:
                            q = self.exact_items(_unwrap(p))
                            if q and len(q) == 2:
                                o.items.append((self.freeze(q[0]), _unwrap(q[1])))
                    else:
                        o.items.append((mk("star", self.freeze(a0)), a0))
                        o.open = True
            for k, v in kw:
                if k != "**":
                    self.dict_put(o, const(k), v)
                else:
                    o.open = True
            return o
        if n == "isinstance":
            names = self.clsnames(args[1])
            r = self.is_instance(a0, names)
            if r is not None:
                return const(r)
            return mk("isinst", self.freeze(a0), tuple(sorted(names)))
        if n == "hasattr":
            if isinstance(a0, Obj) and is_const(args[1]):
                nm = cval(args[1])
                if nm in a0.fields or self.method(a0, nm) is not None:
                    return TRUE
                if a0.kind in ("list", "dict", "set"):
                    return const(nm in dir({"list": list, "dict": dict, "set": set}[a0.kind]))
                if a0.cls and a0.cls[0] == "cls" and not self.P.mro(a0.cls[1], a0.cls[2])[1]:
                    return FALSE
            if isinstance(a0, Term) and a0.op in ("tuple", "list") and is_const(args[1]):
                return const(hasattr(tuple if a0.op == "tuple" else list, cval(args[1])))
            return mk("hasattr", self.freeze(a0), self.freeze(args[1]))
        if n == "getattr" and is_const(args[1]):
            if len(args) > 2:
                return mk("call", "getattr", tuple(self.freeze(a) for a in args), ())
            return self.getattr(a0, cval(args[1]), e)
        if n == "setattr":
            if is_const(args[1]):
                self.setattr(a0, cval(args[1]), args[2], e)
            else:
                self.event("setattr", e, target=a0, name=self.freeze(args[1]), value=args[2])
            return NONE
        if n == "sum":
            it = self.exact_items(a0)
            if it is not None:
                acc = None
                for x in it:
                    x = _unwrap(x)
                    acc = x if acc is None else self.binop("Add", acc, x, e)
                return acc if acc is not None else const(0)
            return mk("call", "sum", (self.freeze(a0),), ())
        if n in ("all", "any"):
            it = self.exact_items(a0)
            if it is not None:
                ss = [self.known(_unwrap(x)) for x in it]
                if n == "all":
                    if any(s is False for s in ss):
                        return FALSE
                    if all(s is True for s in ss):
                        return TRUE
                else:
                    if any(s is True for s in ss):
                        return TRUE
                    if all(s is False for s in ss):
                        return FALSE
            return mk("call", n, tuple(self.freeze(a) for a in args), ())
        if n in ("int", "float", "str", "bool", "min", "max", "abs", "round", "callable", "type", "id", "repr", "hash"):
            if n in ("int", "float", "str", "bool") and is_const(a0):
                try:
                    return const({"int": int, "float": float, "str": str, "bool": bool}[n](cval(a0)))
                except Exception:
                    pass
            if n in ("min", "max") and len(args) > 1 and all(is_const(a) for a in args):
                try:
                    return const({"min": min, "max": max}[n](*[cval(a) for a in args]))
                except Exception:
                    pass
            if n == "callable" and isinstance(a0, (Func, Partial, Class)):
                return TRUE
            if n == "type" and isinstance(a0, Obj) and a0.cls and a0.cls[0] == "cls":
                return Class(a0.cls[1], a0.cls[2])
            return mk("call", n, tuple(self.freeze(a) for a in args), tuple((k, self.freeze(v)) for k, v in kw))
        if n == "next":
            items, _ = self.iter_values(a0, e)
            return items[0] if items else (args[1] if len(args) > 1 else NONE)
        if n == "slice":
            a = [self.freeze(x) for x in args]
            if len(a) == 1:
                return mk("slice", NONE, a[0], NONE)
            return mk("slice", a[0], a[1], a[2] if len(a) > 2 else NONE)
        return None

    def obj_method(self, b, args, kw, e):
        o = b.recv
        n = b.name.split(".", 1)[1]
        if o.kind == "list":
            if n == "append":
                o.items.append(args[0])
                self.event("mutate_obj", e, target=o, how="append", value=args[0])
                return NONE
            if n == "insert":
                if is_const(args[0]) and isinstance(cval(args[0]), int):
                    o.items.insert(cval(args[0]), args[1])
                else:
                    o.items.append(args[1])
                self.event("mutate_obj", e, target=o, how="insert", value=args[1])
                return NONE
            if n == "extend":
                items, open_ = self.iter_values(args[0], e, splat=True)
                o.items += items
                o.open = o.open or open_
                self.event("mutate_obj", e, target=o, how="extend", value=args[0])
                return NONE
            if n == "pop":
                self.event("mutate_obj", e, target=o, how="pop", value=None)
                i = cval(args[0]) if args and is_const(args[0]) else -1
                if o.items and -len(o.items) <= i < len(o.items):
                    return o.items.pop(i)
                if not o.open:
                    raise Stop(mk("ext", "IndexError"), e)
                return mk("unknown", "pop", o.id)
            if n == "reverse":
                o.items.reverse()
                self.event("mutate_obj", e, target=o, how="reverse", value=None)
                return NONE
            if n == "copy":
                c = Obj("list")
                c.items, c.open = list(o.items), o.open
                return c
            if n in ("sort", "clear", "remove"):
                self.event("mutate_obj", e, target=o, how=n, value=args[0] if args else None)
                if n == "clear":
                    o.items, o.open = [], False
                if n == "remove":
                    fx = self.freeze(args[0])
                    for i, x in enumerate(o.items):
                        if self.freeze(x) is fx:
                            del o.items[i]
                            break
                return NONE
            if n in ("index", "count"):
                return mk("call", "." + n, (self.freeze(o),) + tuple(self.freeze(a) for a in args), ())
        if o.kind == "dict":
            if n in ("get", "setdefault", "pop"):
                k = self.freeze(args[0])
                dflt = args[1] if len(args) > 1 else NONE
                for i, (a, v) in enumerate(o.items):
                    if a is k:
                        if n == "pop":
                            del o.items[i]
                            self.event("mutate_obj", e, target=o, how="pop", value=k)
                        return v
                if not o.open and is_const(k) and all(is_const(a) for a, _ in o.items):
                    if n == "setdefault":
                        o.items.append((k, dflt))
                    return dflt
                r = mk("call", ".get", (self.freeze(o), k, self.freeze(dflt)), ())
                return r
            if n == "items":
                r = Obj("list")
                r.items = [self.mktuple([k, v]) for k, v in o.items]
                r.open = o.open
                return r
            if n == "keys":
                r = Obj("list")
                r.items = [k for k, v in o.items]
                r.open = o.open
                return r
            if n == "values":
                r = Obj("list")
                r.items = [v for k, v in o.items]
                r.open = o.open
                return r
            if n == "copy":
                r = Obj("dict")
                r.items, r.open = list(o.items), o.open
                return r
            if n == "update":
                self.event("mutate_obj", e, target=o, how="update", value=args[0] if args else None)
                if args and isinstance(args[0], Obj) and args[0].kind == "dict":
                    for k, v in args[0].items:
                        self.dict_put(o, k, v)
                    o.open = o.open or args[0].open
                elif args:
                    o.items.append((mk("star", self.freeze(args[0])), args[0]))
                    o.open = True
                for k, v in kw:
                    self.dict_put(o, const(k), v)
                return NONE
            if n == "clear":
                self.event("mutate_obj", e, target=o, how="clear", value=None)
                o.items, o.open = [], False
                return NONE
        if o.kind == "set":
            if n in ("add", "update", "discard", "remove"):
                o.items += args
                self.event("mutate_obj", e, target=o, how=n, value=args[0] if args else None)
                return NONE
        return None


class _Ref:
    """Wrapper that gives a Python object a stable identity inside a term."""
    _cache = {}

    def __new__(cls, v):
        key = (id(v.node), id(v.frame), id(v.bound)) if isinstance(v, Func) else id(v)
        r = cls._cache.get(key)
        if r is None:
            r = object.__new__(cls)
            r.v = v
            cls._cache[key] = r
        return r

    def __repr__(self):
        return repr(self.v)


def _wrap(interp, v):
    """Store a non-term value inside a tuple term without losing identity."""
    return mk("pyobj", _RefAny.of(v))


class _RefAny:
    _cache = {}

    @classmethod
    def of(cls, v):
        r = cls._cache.get(id(v))
        if r is None or r.v is not v:
            r = cls()
            r.v = v
            cls._cache[id(v)] = r
        return r

    def __repr__(self):
        return repr(self.v)


def _unwrap(v):
    if isinstance(v, Term) and v.op == "pyobj":
        return v.args[0].v
    return v


def _has_yield(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return False


def reset():
    """Drop interned terms (between independent analyses)."""
    keep = (NONE, TRUE, FALSE)
    _table.clear()
    for t in keep:
        _table[t.key] = t
    _Ref._cache.clear()
    _RefAny._cache.clear()


def explore(run, limit=400, prefix=()):
    """Run `run(prefix)` for every combination of decisions.  `run` returns an
    object with `.taken`; yields them.  Depth-first over unexplored branches."""
    todo = [list(prefix)]
    n = 0
    base = len(prefix)
    while todo:
        p = todo.pop()
        r = run(p)
        n += 1
        yield r
        if n >= limit:
            r.truncated = len(todo) > 0
            return
        taken = [d for d, _, _ in r.taken]
        for i in range(len(taken) - 1, max(len(p), base) - 1, -1):
            todo.append(taken[:i] + [not taken[i]])
