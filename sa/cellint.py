"""Abstract interpreter over array cells: reads the Python, Cython, C++ and CUDA
sources of the backends and tells, for the shapes and index values of a
scenario, what every result cell is a function of, which cells stay unwritten,
and every access outside a buffer.  Control is decided by the scenario (shapes,
lengths, indices and the order type of the symbols); no source code is run."""
import ast
import functools
import itertools
import operator
import os
import re
import threading
from fractions import Fraction

import numpy as np

from . import cpp
from .cellarr import Arr, CTYPES, DT, DataRef, Flags, H, NDArray, Opaque, Ptr, Rand, SIZE, XP, cells, conv, obj, pointer, uf, infer
from .cellval import A, NUM, P, PyErr, UNINIT, Unsup, Viol, fun, num, sym, val

INTS = {k for k, v in CTYPES.items() if v[0] in "iu"} | {"int", "L", "ssize_t"}
FLOATS = {"float", "double", "np.float32_t", "np.float64_t", "weight_t"}
PATH_CUPY = "thinc/backends/cupy_ops.py"
TYPESHED = {"typing", "typing_extensions", "types", "collections", "abc", "dataclasses", "contextvars", "threading", "pydantic", "confection", "catalogue", "srsly", "warnings"}


DUNDER = {"__add__": ast.Add, "__sub__": ast.Sub, "__mul__": ast.Mult, "__truediv__": ast.Div}
IDUNDER = {"__iadd__": ast.Add, "__isub__": ast.Sub, "__imul__": ast.Mult, "__itruediv__": ast.Div}


class Fuel(Exception):
    pass


class Cublas:
    def __init__(self, xp):
        self.xp = xp

    def nrm2(self, x, out=None):
        if len(x.shape) != 1 or out is not None:
            raise Unsup("nrm2 of other arrays than vectors")
        r = np.empty((), object)
        r[()] = self.xp.linalg.norm(x)
        return Arr(r, x.dtype, x.dev)


class Opq:
    """Something outside the analysed sources."""

    def __init__(self, name):
        self.__dict__["name"] = name

    def __repr__(self):
        return f"<{self.name}>"

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return Opq(self.name + "." + a)

    def __eq__(self, o):
        return isinstance(o, Opq) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Tok(str):
    """The name of a C type."""


class PathV:
    def __init__(self, p):
        self.p = p
    parent = property(lambda s: PathV(os.path.dirname(s.p)))

    def __truediv__(self, o):
        return PathV(os.path.join(self.p, o))

    def read_text(self, *a, **k):
        return CuSource(self.p)


class CuSource:
    def __init__(self, p):
        self.p = p


class Fn:
    def __init__(self, node, mod, cls=None, closure=None, lang="py"):
        self.node, self.mod, self.cls, self.closure, self.lang = node, mod, cls, closure, lang
        self.name = getattr(node, "name", "<lambda>")
        self.at = {}
        decs = [ast.unparse(d) for d in getattr(node, "decorator_list", [])]
        self.decs = decs
        self.static = "staticmethod" in decs
        self.classm = "classmethod" in decs
        self.prop = any(d == "property" or d.endswith("cached_property") for d in decs)
        self.nobounds = any(d.replace(" ", "") == "cython.boundscheck(False)" for d in decs)
        self.gen = getattr(node, "_isgen", None)
        if self.gen is None:
            self.gen = node._isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(node))

    def __repr__(self):
        return f"<function {self.name}>"


def own(node):
    """Nodes of a function, nested functions left out."""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            continue
        todo.extend(ast.iter_child_nodes(n))


class Bound:
    def __init__(self, fn, obj):
        self.fn, self.obj = fn, obj


class Cls:
    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self.bases = [b for b in (mod.w.try_eval(x, mod) for x in node.bases) if isinstance(b, Cls)]
        self.dc = any(ast.unparse(d).startswith(("dataclass", "dataclasses.dataclass")) for d in node.decorator_list)
        self.table = {}
        self.setters = {}
        self.vals = {}
        self.fields = []
        for s in node.body:
            self.add(s)

    def add(self, s):
        if isinstance(s, ast.FunctionDef):
            if any(ast.unparse(d).endswith(".setter") for d in s.decorator_list):
                self.setters[s.name] = s
                return
            if any(ast.unparse(d) in ("overload", "typing.overload") for d in s.decorator_list):
                return
            self.table[s.name] = s
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
            self.fields.append((s.target.id, s.value))
            if s.value is not None:
                self.table[s.target.id] = s.value
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.table[t.id] = s.value
        elif isinstance(s, ast.If):
            for x in s.body + s.orelse:
                self.add(x)

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def setter(self, n):
        for c in self.mro():
            if n in c.setters:
                return c, c.setters[n]
            if n in c.table:
                return None
        return None

    def find(self, name, after=None):
        seen = after is None
        for c in self.mro():
            if seen and name in c.table:
                return c, c.table[name]
            if c is after:
                seen = True
        return None, None

    def __repr__(self):
        return f"<class {self.name}>"


class Obj:
    def __init__(self, cls):
        self.__dict__["cls"] = cls
        self.__dict__["at"] = {}

    def __repr__(self):
        return f"<{self.cls.name} object>"


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Struct:
    def __init__(self, name, f):
        self.name, self.f = name, f


class Frame:
    __slots__ = ("v", "fn", "mod", "types", "up", "lang", "yields", "fused", "globs", "refs")

    def __init__(self, fn, mod, lang, up=None):
        self.v, self.fn, self.mod, self.lang, self.up = {}, fn, mod, lang, up
        self.types, self.yields, self.fused, self.globs = {}, None, {}, set()
        self.refs = None        # C++ references: name -> Ptr or VarPtr


class Mod:
    def __init__(self, w, rel, tree, lang="py"):
        self.w, self.rel, self.tree, self.lang = w, rel, tree, lang
        self.cache = {}
        self.defs = {}
        self.scan(tree.body)
        self.externs, self.fuseds, self.typedefs, self.kern = {}, {}, {}, {}
        if lang == "cy":
            self.pxd()

    def scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                if isinstance(s, ast.FunctionDef) and any(ast.unparse(d) == "overload" for d in s.decorator_list):
                    continue
                self.defs.setdefault(s.name, []).append(s)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.defs.setdefault(n.id, []).append(s)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.defs.setdefault(s.target.id, []).append(s)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    self.defs.setdefault(a.asname or (a.name.split(".")[0] if isinstance(s, ast.Import) else a.name), []).append((s, a))
            elif isinstance(s, ast.If):
                sub = {}
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        sub[x.id] = 1
                    elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                        sub[x.name] = 1
                    elif isinstance(x, (ast.Import, ast.ImportFrom)):
                        for a in x.names:
                            sub[a.asname or a.name.split(".")[0]] = 1
                for n in sub:
                    self.defs.setdefault(n, []).append(s)
            elif isinstance(s, ast.Try):
                self.scan(s.body)

    def pxd(self):
        p = os.path.join(self.w.root, self.rel[:-4] + ".pxd")
        srcs = [p] if os.path.exists(p) else []
        for q in srcs:
            t = re.sub(r"#.*", "", open(q, encoding="utf8").read())
            for m in re.finditer(r"ctypedef\s+([\w ]+?)\s*(\[[:,1 ]*\])\s+(\w+)", t):
                self.typedefs[m[3]] = m[1].strip() + m[2].replace(" ", "")
            for m in re.finditer(r"cdef fused (\w+):\n((?:[ \t]+\w+\s*\n)+)", t):
                self.fuseds[m[1]] = m[2].split()
            for m in re.finditer(r'cdef extern from "([^"]+)"[^:]*:\n((?:[ \t].*\n|\s*\n)+)', t + "\n"):
                f = os.path.join(os.path.dirname(p), m[1])
                if not os.path.exists(f):
                    continue
                body = re.sub(r"\\\n", " ", m[2])
                body = re.sub(r"\(([^()]*(?:\([^()]*\)[^()]*)*)\)", lambda k: k[0].replace("\n", " "), body)
                for line in body.split("\n"):
                    k = re.match(r"\s*(?:cdef\s+)?[\w*\s]+?[\s*](\w+)\s*(?:\[[^\]]*\])?\s*\(.*\)\s*(.*)$", line)
                    if k and "ctypedef" not in line:
                        self.externs[k[1]] = (f, "except" in k[2])

    def get(self, n):
        if n in self.cache:
            return self.cache[n]
        ov = self.w.override(self, n)
        if ov is not None:
            self.cache[n] = ov[0]
            return ov[0]
        if n == "__file__":
            return os.path.join(self.w.root, self.rel)
        if n in self.externs:
            f, exc = self.externs[n]
            v = Extern(self.w, n, f, exc)
            self.cache[n] = v
            return v
        if n in self.typedefs or n in self.fuseds:
            return Tok(n)
        ds = self.defs.get(n)
        if not ds:
            raise KeyError(n)
        s = ds[-1]
        v = self.load(n, s)
        self.cache[n] = v
        return v

    def load(self, n, s):
        if isinstance(s, tuple):
            return self.imp(n, *s)
        if isinstance(s, ast.FunctionDef):
            return Fn(s, self, lang=self.lang)
        if isinstance(s, ast.ClassDef):
            return Cls(s, self)
        fr = Frame(None, self, self.lang)
        if isinstance(s, ast.If):
            self.w.ev.block([s], fr)
            if n not in fr.v:
                raise KeyError(n)
            return fr.v[n]
        if isinstance(s, ast.AnnAssign):
            return self.w.ev.e(s.value, fr)
        self.w.ev.block([s], fr)
        return fr.v[n]

    def imp(self, n, s, a):
        if isinstance(s, ast.Import):
            return self.w.external(a.name if a.asname else a.name.split(".")[0])
        base = s.module or ""
        if s.level:
            parts = self.rel.split("/")[:-1]
            if s.level > 1:
                parts = parts[:-(s.level - 1)]
            path = "/".join(parts + (base.split(".") if base else []))
        elif base.split(".")[0] == "thinc":
            path = base.replace(".", "/")
        else:
            return self.w.external(base + "." + a.name)
        sub = self.w.find(path + "/" + a.name)
        m = self.w.find(path)
        if m:
            m = self.w.module(m)
            try:
                return m.get(a.name)
            except KeyError:
                pass
        if sub:
            return self.w.module(sub)
        return Opq(f"{path.replace('/', '.')}.{a.name}")

    def __repr__(self):
        return f"<module {self.rel}>"


class Extern:
    """A C++ function template declared to Cython."""

    def __init__(self, w, name, path, exc):
        self.w, self.name, self.path, self.exc = w, name, path, exc


class World:
    def __init__(self, root, gpu=False):
        self.root = root
        self.gpu = gpu
        self.np, self.cp = XP("np"), XP("cp")
        self.cp.RawModule, self.cp.RawKernel = self.raw_module, self.raw_kernel
        self.cp.ReductionKernel = self.reduction
        self.cp.ElementwiseKernel = self.elementwise
        self.cp.get_array_module = self.xp_of
        self.mods = {}
        self.cpps = {}
        self.ev = Eval(self)
        self.grid = (2, 2)
        self.entries = {}
        self.methods = {}       # operations of a backend taken as known
        self.current = None     # the backend in use, where a scenario has one
        self.used = set()       # functions the analysis went through
        self.launches = 0

    # -- loading
    def find(self, path):
        for ext in (".py", "/__init__.py", ".pyx"):
            if os.path.isfile(os.path.join(self.root, path + ext)):
                return path + ext
        return None

    PARSED = {}

    def module(self, rel):
        m = self.mods.get(rel)
        if m is None:
            p = os.path.join(self.root, rel)
            key = (p, os.path.getmtime(p))
            t = World.PARSED.get(key)
            if t is None:
                if rel.endswith(".pyx"):
                    from .cy import parse_pyx
                    t = parse_pyx(p, rel[:-4].replace("/", "."))
                else:
                    with open(p, encoding="utf8") as f:
                        t = ast.parse(f.read())
                World.PARSED[key] = t
            m = self.mods[rel] = Mod(self, rel, t, "cy" if rel.endswith(".pyx") else "py")
        return m

    def cppfile(self, path, cuda=False):
        key = (path, os.path.getmtime(path))
        r = World.PARSED.get(key)
        if r is None:
            r = World.PARSED[key] = cpp.parse(path, os.path.relpath(path, self.root), cuda)
        return r

    def try_eval(self, x, mod):
        try:
            return self.ev.e(x, Frame(None, mod, mod.lang))
        except (KeyError, Unsup, PyErr):
            return None

    UTIL = {"get_array_module", "is_xp_array", "is_cupy_array", "is_numpy_array", "to_numpy", "copy_array", "is_torch_array", "is_torch_cuda_array",
            "is_torch_gpu_array", "is_tensorflow_array", "is_tensorflow_gpu_array", "is_mxnet_array", "is_mxnet_gpu_array", "is_torch_mps_array"}

    def override(self, mod, n):
        b = os.path.basename(mod.rel)
        if b == "compat.py":
            if n.startswith("has_"):
                return (n in ("has_cupy", "has_cupy_gpu", "has_gpu", "has_blis", "has_cupyx") and (self.gpu or n == "has_blis"),)
            if n == "cupy":
                return (self.cp if self.gpu else None,)
            if n == "cublas":
                return (Cublas(self.cp) if self.gpu else None,)
        if b == "util.py" and n in self.UTIL:
            return (getattr(self, "u_" + n, lambda x: False),)
        if mod.rel == "thinc/backends/__init__.py" and n == "get_current_ops" and self.current is not None:
            return (self.current,)
        if b == "cblas.pyx" and re.match(r"[sd](gemm|axpy|scal)$", n):
            return (lambda cb, n=n: Blas(n),)
        if b == "cblas.pyx" and n == "CBlas":
            return (lambda *a: Opq("CBlas()"),)
        return None

    def u_get_array_module(self, x): return self.xp_of(x)
    def u_is_xp_array(self, x): return isinstance(x, Arr)
    def u_is_cupy_array(self, x): return isinstance(x, Arr) and x.dev == "cp"
    def u_is_numpy_array(self, x): return isinstance(x, Arr) and x.dev == "np"

    def u_to_numpy(self, x):
        if isinstance(x, Arr):
            return x.get() if x.dev == "cp" else x
        if isinstance(x, (list, tuple)):
            return self.np.asarray(x)
        raise PyErr("ValueError", "cannot convert to numpy")

    def u_copy_array(self, dst, src):
        dst[...] = src

    def xp_of(self, x):
        return self.cp if isinstance(x, Arr) and x.dev == "cp" else self.np

    def external(self, name):
        top = name.split(".")[0]
        if name in ("numpy",):
            return self.np
        if name in ("cupy", "cupyx"):
            return self.cp if self.gpu else Opq(name)
        if top in ("numpy", "cupy"):
            x = self.np if top == "numpy" else self.cp
            for a in name.split(".")[1:]:
                x = getattr(x, a, None) or Opq(name)
            return x
        if name in ("itertools",):
            return Lib({"repeat": itertools.repeat, "count": itertools.count, "chain": itertools.chain, "islice": itertools.islice, "cycle": itertools.cycle})
        if top == "itertools":
            return self.ev.attr(self.external("itertools"), name.split(".")[1], None)
        if name == "operator":
            return Lib({"mul": operator.mul, "add": operator.add, "itemgetter": operator.itemgetter})
        if name == "functools":
            return Lib({"reduce": lambda f, xs, *i: functools.reduce(lambda a, b: self.ev.call(f, [a, b], {}), xs, *i),
                        "partial": lambda f, *a, **k: Partial(self.ev, f, a, k), "wraps": lambda f, *a, **k: (lambda g: g),
                        "update_wrapper": lambda g, f, *a, **k: g, "lru_cache": lambda *a, **k: (a[0] if a and not isinstance(a[0], int) else (lambda g: g))})
        if top == "functools":
            return self.ev.attr(self.external("functools"), name.split(".")[1], None)
        if name in ("contextvars.ContextVar",):
            return lambda n, default=UNINIT, **k: CtxVar(n, default)
        if name == "contextlib":
            return Lib({"ExitStack": lambda: Stack(self.ev), "nullcontext": lambda *a: NullCtx(), "contextmanager": lambda f: f})
        if top == "contextlib":
            return self.ev.attr(self.external("contextlib"), name.split(".")[1], None)
        if name == "threading":
            return Lib({"Lock": lambda: NullCtx(), "RLock": lambda: NullCtx(), "local": lambda: Struct("local", {}), "current_thread": lambda: Opq("thread"), "main_thread": lambda: Opq("thread")})
        if name in ("typing.TypeVar", "typing.NewType"):
            return lambda *a, **k: Opq(name)
        if name == "warnings":
            return Lib({"warn": lambda *a, **k: None})
        if name == "enum.Enum":
            return Opq(name)
        if name == "math":
            return Lib({"sqrt": lambda x: fun("sqrt", x), "log": lambda x: fun("log", x), "exp": lambda x: fun("exp", x), "pi": Fraction("3.141592653589793"), "ceil": lambda x: -int(-num(x) // 1), "floor": lambda x: int(num(x) // 1), "prod": lambda xs: functools.reduce(operator.mul, xs, 1), "erf": lambda x: fun("erf", x), "isnan": lambda x: False, "isinf": lambda x: False})
        if top == "math":
            return self.ev.attr(self.external("math"), name.split(".")[1], None)
        if name == "pathlib.Path":
            return lambda p: PathV(p)
        if name == "typing.cast":
            return lambda t, x: x
        if name == "copy.copy":
            return lambda x: x.copy() if hasattr(x, "copy") else x
        if name == "copy":
            return Lib({"copy": lambda x: x.copy() if hasattr(x, "copy") else x, "deepcopy": self.ev.deepcopy})
        if name == "copy.deepcopy":
            return self.ev.deepcopy
        if name == "collections.defaultdict":
            return lambda f=None, *a: DefDict(self.ev, f)
        m = re.search(r"(\w+)$", name)
        n = m[1] if m else name
        if top in ("libc", "libcpp", "murmurhash", "cython", "cymem", "preshed", "blis"):
            b = self.ev.cbuiltin(n)
            if b is not None:
                return b
        return Opq(name)

    # -- device
    def raw_module(self, code=None, options=(), name_expressions=None, **k):
        if not isinstance(code, CuSource):
            raise Unsup("source of the CUDA module")
        names = list(name_expressions or [])

        def get_function(name):
            if name not in names:
                raise Viol(f"the kernel {name} is requested, but is not in the list that is compiled")
            return self.kernel(code.p, name)
        return Lib({"get_function": get_function, "names": names})

    def raw_kernel(self, code, name, **k):
        return self.kernel(code.p, name)

    def kernel(self, path, name):
        m = re.match(r"(\w+)\s*(?:<(.*)>)?$", name)
        fns = self.cppfile(path, True).get(m[1])
        if not fns:
            raise Viol(f"the kernel {name} is not defined in {os.path.basename(path)}")
        return Kernel(self, fns[0], m[1], m[2], path)

    def reduction(self, ins, outs, mapx, red, post, ident, name, **k):
        params = [p.split()[-1] for p in ins.split(",")]
        expr = ast.parse(mapx.replace("&&", " and ").replace("||", " or ").replace("!(", "not ("), mode="eval").body
        rx = ast.parse(red, mode="eval").body
        ident_ = {"true": True, "false": False}.get(ident)
        if ident_ is None:
            ident_ = ast.literal_eval(ident)

        def run(x, *rest):
            acc = ident_
            for c in x.d.reshape(-1):
                fr = Frame(None, None, "cu")
                fr.v = dict(zip(params, (c,) + rest))
                v = self.ev.e(expr, fr)
                fr2 = Frame(None, None, "cu")
                fr2.v = {"a": acc, "b": v}
                acc = self.ev.e(rx, fr2)
            return acc
        return run

    def elementwise(self, ins, outs, body, name="", *a, **k):
        ins, outs = ([x.split()[-1] for x in t.split(",") if x.strip()] for t in (ins, outs))
        stmts = []
        for st in body.split(";"):
            st = " ".join(st.split())
            m = re.match(r"(?:const )?(?:T|float|double|auto) (\w+ ?=[^=].*)$", st)
            if st:
                try:
                    stmts += ast.parse(m[1] if m else st).body
                except SyntaxError:
                    raise Unsup("body of an elementwise kernel")

        def run(*args):
            self.used.add((PATH_CUPY, f"ElementwiseKernel {name}"))
            if len(args) not in (len(ins), len(ins) + len(outs)):
                raise PyErr("TypeError", "Wrong number of arguments for the elementwise kernel")
            args = list(args)
            shape = np.broadcast_shapes(*[x.shape for x in args if isinstance(x, Arr)])
            if len(args) == len(ins):
                t = next(x.dtype for x in args if isinstance(x, Arr))
                args += [self.cp.empty(shape, t) for _ in outs]
            for x in args[len(ins):]:
                if x.shape != shape:
                    raise PyErr("ValueError", "Out shape is mismatched")
            for ix in np.ndindex(*shape):
                fr = Frame(None, None, "cu")
                fr.v = {n: (lambda *a, _n=n: fun(_n, *a)) for n in ("sqrt", "exp", "log", "tanh", "log1p")}
                fr.v.update({"pow": lambda a, b: fun("pow", a, b), "fabs": abs, "abs": abs, "max": max, "min": min, "fmax": max, "fmin": min})
                fr.v |= {n: (np.broadcast_to(x.d, shape)[ix] if isinstance(x, Arr) else x) for n, x in zip(ins + outs, args)}
                self.ev.block(stmts, fr)
                for n, x in zip(outs, args[len(ins):]):
                    x.d[ix] = cell(fr.v[n], x.dtype)
            return args[len(ins)] if len(outs) == 1 else tuple(args[len(ins):])
        return run


class Lib:
    def __init__(self, d):
        self.d = d


class DefDict(dict):
    def __init__(self, ev, f):
        self.ev, self.f = ev, f

    def __missing__(self, k):
        v = self[k] = self.ev.call(self.f, [], {})
        return v


class Blas:
    """A BLAS entry: reads and writes the raw buffers it is given."""

    def __init__(self, name):
        self.name = name
        self.t = DT("float32" if name[0] == "s" else "float64")

    def ck(self, p, n):
        if p is None and n:
            raise Viol(f"{self.name} is given a null pointer")
        if p is not None and (not isinstance(p, Ptr) or p.t != self.t):
            raise Viol(f"{self.name} works on {self.t} and is given {getattr(p, 't', p)}")

    def __call__(self, *a):
        if self.name[1:] == "gemm":
            ta, tb, M, N, K, alpha, X, lda, Y, ldb, beta, C, ldc = a
            for p in (X, Y, C):
                self.ck(p, M * N)
            for m in range(M):
                for n in range(N):
                    s = Fraction(0)
                    for k in range(K):
                        x = X[k * lda + m] if ta else X[m * lda + k]
                        y = Y[n * ldb + k] if tb else Y[k * ldb + n]
                        for v in (x, y):
                            if v is UNINIT:
                                v._bad()
                        s = s + x * y
                    s = s * num(alpha) if alpha != 1 else s
                    if beta != 0:
                        c = C[m * ldc + n]
                        s = s + (c * num(beta) if beta != 1 else c)
                    C[m * ldc + n] = s
        elif self.name[1:] == "axpy":
            n, alpha, X, ix, Y, iy = a
            self.ck(X, n), self.ck(Y, n)
            for i in range(n):
                Y[i * iy] = Y[i * iy] + X[i * ix] * (alpha if isinstance(alpha, P) else num(alpha))
        else:
            n, alpha, X, ix = a
            self.ck(X, n)
            for i in range(n):
                X[i * ix] = X[i * ix] * (alpha if isinstance(alpha, P) else num(alpha))


class Kernel:
    def __init__(self, w, node, name, targ, path):
        self.w, self.node, self.name, self.targ, self.path = w, node, name, targ, path

    def __call__(self, grid, block, args, **k):
        w = self.w
        w.launches += 1
        w.used.add((os.path.relpath(self.path, w.root), self.name))
        ps = [a.arg for a in self.node.args.args]
        if len(ps) != len(args):
            raise Viol(f"the kernel {self.name} takes {len(ps)} arguments and is launched with {len(args)}")
        vals = []
        for p, v in zip(ps, args):
            ct = self.node._ctypes[p]
            base = re.sub(r"\bconst\b|__restrict__", "", ct).replace("*", "").strip()
            stars = ct.count("*")
            if isinstance(v, Arr):
                if v.dev != "cp":
                    raise PyErr("TypeError", "a host array is passed to a kernel")
                if not stars:
                    raise Viol(f"the kernel {self.name} takes a number for {p} and is given an array")
                want = None
                if stars == 1:
                    want = DT(CTYPES[base]) if base in CTYPES else (DT(CTYPES[self.targ]) if self.targ in CTYPES else None)
                    if base == "char":
                        want = None
                elif v.dtype.itemsize != 8:
                    raise Viol(f"the kernel {self.name} takes addresses for {p} and is given {v.dtype}")
                vals.append(pointer(v, want, f"the argument {p} of the kernel {self.name}"))
            else:
                if stars:
                    raise Viol(f"the kernel {self.name} takes an array for {p} and is given {v!r}")
                if base in ("double", "float") and isinstance(v, int) and not isinstance(v, bool):
                    raise Viol(f"the kernel {self.name} takes a {base} for {p} and is given a whole number, whose bytes it reads as a floating-point number")
                if base in ("int", "size_t", "unsigned int", "long long") and (isinstance(v, P) or isinstance(v, (Fraction, float))):
                    raise Viol(f"the kernel {self.name} takes a {base} for {p} and is given a floating-point number, whose bytes it reads as a whole number")
                vals.append(int(v) if base in ("int", "size_t") and not isinstance(v, P) else (num(v) if isinstance(v, NUM) else v))
        nb, nt = w.grid
        for b in range(nb):
            for t in range(nt):
                fn = Fn(self.node, None, lang="cu")
                fr = Frame(fn, None, "cu")
                fr.types = dict(self.node._ctypes)
                fr.v = dict(zip(ps, vals))
                fr.v.update({"blockIdx": Struct("dim3", {"x": b, "y": 0, "z": 0}), "blockDim": Struct("dim3", {"x": nt, "y": 1, "z": 1}),
                             "gridDim": Struct("dim3", {"x": nb, "y": 1, "z": 1}), "threadIdx": Struct("dim3", {"x": t, "y": 0, "z": 0})})
                H.thread = (b, t)
                try:
                    w.ev.block(self.node.body, fr)
                except Viol as v:
                    if not v.where:
                        v.where = f"{os.path.relpath(self.path, w.root)}:{self.name}"
                    raise
                finally:
                    H.thread = None
        bad = [k for k, s in H.writes.items() if len(s) > 1 or (H.reads.get(k, set()) - s)]
        H.reads, H.writes = {}, {}
        if bad:
            raise Viol(f"threads of the kernel {self.name} write or read the same cell", f"{os.path.relpath(self.path, w.root)}:{self.name}")


BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Mod: operator.mod, ast.FloorDiv: operator.floordiv, ast.BitAnd: operator.and_,
       ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.MatMult: operator.matmul}
IBIN = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv}
EXC = {"ValueError", "IndexError", "KeyError", "TypeError", "NotImplementedError", "AssertionError", "AttributeError", "RuntimeError", "StopIteration", "Exception", "ZeroDivisionError",
       "LookupError", "OverflowError"}
SUPERS = {"IndexError": {"LookupError"}, "KeyError": {"LookupError"}, "NotImplementedError": {"RuntimeError"}}
CEXC = {"std::out_of_range": "IndexError", "std::invalid_argument": "ValueError", "std::domain_error": "ValueError", "std::runtime_error": "RuntimeError", "std::logic_error": "RuntimeError", "std::length_error": "RuntimeError"}


class Partial:
    """functools.partial."""

    def __init__(self, ev, f, a, k):
        self.ev, self.func, self.args, self.keywords = ev, f, tuple(a), dict(k)

    def __call__(self, *a, **k):
        return self.ev.call(self.func, list(self.args) + list(a), {**self.keywords, **k})


class CtxVar:
    def __init__(self, n, default):
        self.name, self.v, self.default = n, UNINIT, default

    def get(self, *d):
        if self.v is not UNINIT:
            return self.v
        if d:
            return d[0]
        if self.default is UNINIT:
            raise PyErr("LookupError", self.name)
        return self.default

    def set(self, v):
        t = self.v
        self.v = v
        return (self, t)

    def reset(self, t):
        self.v = t[1]


class NullCtx:
    """A lock: entered and left."""

    def acquire(self, *a, **k): return True
    def release(self): return None


class Coroutine:
    """A generator function run step by step, on a thread of its own that only runs while it is waited for."""

    def __init__(self, ev, body):
        self.ev, self.body = ev, body
        self.here, self.there = threading.Semaphore(0), threading.Semaphore(0)
        self.out, self.inp, self.th = None, None, None

    def run(self):
        self.there.acquire()
        try:
            if self.inp is None:
                self.body(self)
            self.out = ("end", None)
        except BaseException as e:
            self.out = ("exc", e)
        self.here.release()

    def give(self, v):
        self.out = ("val", v)
        self.here.release()
        self.there.acquire()
        if self.inp is not None:
            e, self.inp = self.inp, None
            raise e

    def step(self, exc=None):
        if self.out is not None and self.out[0] in ("end", "exc"):
            return ("end", None)
        if self.th is None:
            if exc is not None:
                return ("end", None)
            threading.stack_size(256 * 1024 * 1024)
            self.th = threading.Thread(target=self.run, daemon=True)
            self.th.start()
        self.inp = exc
        stack, th = self.ev.stack, H.thread
        self.ev.stack = list(stack)
        self.there.release()
        self.here.acquire()
        self.ev.stack, H.thread = stack, th
        return self.out


class CtxMgr:
    """contextlib.contextmanager."""

    def __init__(self, co):
        self.co = co

    def enter(self):
        k, v = self.co.step()
        if k == "exc":
            raise v
        if k == "end":
            raise PyErr("RuntimeError", "generator didn't yield")
        return v

    def leave(self, e):
        k, v = self.co.step(e)
        if k == "val":
            raise PyErr("RuntimeError", "generator didn't stop")
        if k == "exc":
            if v is e:
                return False
            raise v
        return e is not None


class Stack(CtxMgr):
    """contextlib.ExitStack."""

    def __init__(self, ev):
        self.ev, self.todo = ev, []

    def enter(self):
        return self

    def enter_context(self, m):
        enter, leave = self.ev.ctx(m)
        if enter is None:
            if isinstance(m, (Opq, NullCtx)):
                return m
            raise Unsup("enter_context")
        v = enter()
        self.todo.append(leave)
        return v

    def callback(self, f, *a, **k):
        def leave(e):
            self.ev.call(f, list(a), k)
            return False
        self.todo.append(leave)
        return f

    def pop_all(self):
        s = Stack(self.ev)
        s.todo, self.todo = self.todo, []
        return s

    def close(self):
        self.leave(None)

    def leave(self, e):
        given = e
        while self.todo:
            try:
                if self.todo.pop()(e):
                    e = None
            except PyErr as x:
                e = x
        if e is not None and e is not given:
            raise e
        return given is not None and e is None


class ExcT:
    def __init__(self, name):
        self.name = name

    def __call__(self, *a, **k):
        return PyErr(self.name, " ".join(str(x) for x in a))


class BT:
    """A builtin type, as a value."""

    def __init__(self, name, py, conv_):
        self.name, self.py, self.conv = name, py, conv_


class Eval:
    def __init__(self, w):
        self.w = w
        self.fuel = 0
        self.stack = []
        num_ = lambda x: x
        self.builtins = {
            "len": self.len_, "range": lambda *a: range(*[self.index(x) for x in a]), "enumerate": lambda x, start=0: enumerate(self.iter(x), start),
            "zip": lambda *xs, **k: list(zip(*[list(self.iter(x)) if not isinstance(x, (itertools.repeat, itertools.count)) else x for x in xs])),
            "max": lambda *a, **k: self.mm(a, k, 1), "min": lambda *a, **k: self.mm(a, k, 0), "sum": self.sum_, "abs": abs, "sorted": self.sorted_, "reversed": lambda x: list(x)[::-1],
            "isinstance": self.isinst, "issubclass": lambda a, b: isinstance(a, Cls) and any(c in a.mro() for c in (b if isinstance(b, tuple) else (b,))),
            "hasattr": self.hasattr_, "getattr": self.getattr_, "setattr": lambda o, n, v: self.setattr_(o, n, v),
            "any": lambda x: any(self.truth(y) for y in self.iter(x)), "all": lambda x: all(self.truth(y) for y in self.iter(x)),
            "map": lambda f, *xs: [self.call(f, list(a), {}) for a in zip(*[self.iter(x) for x in xs])], "filter": lambda f, xs: [x for x in self.iter(xs) if self.truth(self.call(f, [x], {}))],
            "iter": lambda x: iter(self.iter(x)), "next": self.next_, "print": lambda *a, **k: None, "repr": lambda x: repr(x), "id": id, "round": lambda x, n=0: Fraction(round(num(x), n)) if n else int(round(num(x))),
            "divmod": lambda a, b: (a // b, a % b), "callable": lambda f: isinstance(f, (Fn, Bound, Cls, Blas, Kernel)) or callable(f), "slice": slice, "super": None, "type": self.type_,
            "bytes": bytes, "object": Opq("object"), "staticmethod": lambda x: x, "property": Opq("property"), "hash": lambda x: hash(x), "ord": ord, "chr": chr,
            "list": BT("list", list, lambda x=(): list(self.iter(x))), "tuple": BT("tuple", tuple, lambda x=(): tuple(self.iter(x))), "set": BT("set", set, lambda x=(): set(self.iter(x))),
            "frozenset": BT("frozenset", frozenset, lambda x=(): frozenset(self.iter(x))),
            "dict": BT("dict", dict, lambda *a, **k: dict(*[dict(self.iter(x)) if not isinstance(x, dict) else x for x in a], **k)),
            "int": BT("int", int, self.int_), "float": BT("float", (float, Fraction, P), lambda x=0.0: x if isinstance(x, P) else (x.item() if isinstance(x, Arr) else num(x))),
            "bool": BT("bool", bool, lambda x=False: self.truth(x)), "str": BT("str", str, lambda x="": str(x)),
            "NULL": None, "True": True, "False": False, "None": None, "NotImplemented": NotImplemented, "Ellipsis": Ellipsis,
        }
        for e in EXC:
            self.builtins[e] = ExcT(e)

    # -- C library
    def cbuiltin(self, n):
        if n in ("memcpy", "memmove"):
            return self.memcpy
        if n == "memset":
            return self.memset
        if n in ("hash64",):
            return self.hash64
        if n in ("expf", "exp", "logf", "log", "sqrtf", "sqrt", "tanhf", "tanh", "sinf", "sin", "cosf", "cos", "erf", "erff", "log1p", "log1pf", "cosh", "sinh"):
            m = n[:-1] if n.endswith("f") and n not in ("erf",) else n
            return lambda x, m=m: fun(m, x)
        if n in ("powf", "pow"):
            return lambda a, b: self.pow(a, b)
        if n in ("fabs", "fabsf", "abs"):
            return lambda x: abs(x)
        if n in ("max", "min", "fmax", "fmin"):
            return lambda *a, n=n: self.mm(a, {}, "max" in n)
        if n == "isnan":
            return lambda x: False
        if n in ("std::string", "to_string", "string"):
            return lambda x: str(x)
        if n == "atomicAdd":
            return self.atomic
        if n == "__syncthreads":
            return lambda: None
        if n == "fill_n":
            return lambda p, k, v: [p.__setitem__(i, v) for i in range(k)] and None
        if n == "fill":
            return lambda p, q, v: [p.__setitem__(i, v) for i in range(q - p)] and None
        if n == "copy_n":
            return lambda p, k, d: [d.__setitem__(i, p[i]) for i in range(k)] and None
        if n == "copy":
            return lambda p, q, d: [d.__setitem__(i, p[i]) for i in range(q - p)] and None
        if n == "Pool":
            return lambda *a: Lib({"alloc": lambda n, size: RawMem(n)})
        if n == "boundscheck":
            return None
        return None

    def atomic(self, p, v):
        th, H.thread = H.thread, None
        try:
            p[0] = p[0] + v
        finally:
            H.thread = th

    def count(self, n, p):
        if n is UNINIT:
            n._bad()
        size = p.t.itemsize
        if n % size:
            raise Viol(f"{n} bytes of a buffer of {p.t}")
        return int(n) // size

    def memcpy(self, d, s, n):
        if n == 0:
            return d
        if d is None or s is None:
            raise Viol("memory is copied through a null pointer")
        if n < 0:
            raise Viol("a negative number of bytes is copied")
        if d.t != s.t:
            raise Viol(f"{s.t} cells are copied into a buffer of {d.t}")
        k = self.count(n, d)
        d.at(k - 1, "copies into"), d.at(0, "copies into")
        s.at(k - 1, "copies from"), s.at(0, "copies from")
        vs = [s[i] for i in range(k)]
        for i in range(k):
            if vs[i] is UNINIT:
                vs[i]._bad()
            d[i] = vs[i]
        return d

    def memset(self, d, v, n):
        if n == 0:
            return d
        if n < 0:
            raise Viol("a negative number of bytes is set")
        if d is None:
            raise Viol("memory is set through a null pointer")
        if v != 0:
            raise Unsup("memset to a non-zero byte")
        k = self.count(n, d)
        d.at(k - 1, "sets")
        for i in range(k):
            d[i] = 0
        return d

    def hash64(self, p, n, seed):
        if not isinstance(p, Ptr):
            raise Unsup("hash of something else than a buffer")
        k = self.count(n, p)
        return Opaque("hash64", *[p[i] for i in range(k)], int(seed))

    # -- builtins
    def len_(self, x):
        if isinstance(x, Obj):
            return self.meth(x, "__len__", [])
        if isinstance(x, Opq):
            raise Unsup(f"len of {x}")
        try:
            return len(x)
        except TypeError as e:
            raise PyErr("TypeError", str(e))

    def mm(self, a, k, big):
        if len(a) == 1:
            a = list(self.iter(a[0]))
        if not a:
            if "default" in k:
                return k["default"]
            raise PyErr("ValueError", "max() arg is an empty sequence")
        key = (lambda x: self.call(k["key"], [x], {})) if k.get("key") is not None else (lambda x: x)
        b = a[0]
        for x in a[1:]:
            if (self.truth(key(x) > key(b)) if big else self.truth(key(x) < key(b))):
                b = x
        return b

    def sum_(self, xs, start=0):
        for x in self.iter(xs):
            start = start + x
        return start

    def sorted_(self, xs, key=None, reverse=False):
        return sorted(self.iter(xs), key=(lambda x: self.call(key, [x], {})) if key is not None else None, reverse=reverse)

    def next_(self, it, *d):
        try:
            return next(it)
        except StopIteration:
            if d:
                return d[0]
            raise PyErr("StopIteration")

    def int_(self, x=0, *a):
        if isinstance(x, Arr):
            x = x.item()
        if isinstance(x, P):
            raise Unsup("a symbolic value is turned into an integer")
        if x is UNINIT:
            x._bad()
        try:
            return int(x, *a)
        except (ValueError, TypeError) as e:
            raise PyErr("ValueError", str(e))

    def index(self, x):
        if isinstance(x, Arr):
            return x.__index__()
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if x is UNINIT:
            x._bad()
        raise PyErr("TypeError", f"{type(x).__name__} object cannot be interpreted as an integer")

    def iter(self, x):
        if isinstance(x, Obj):
            if x.cls.find("__iter__")[0]:
                return self.iter(self.meth(x, "__iter__", []))
            n = self.len_(x)
            return [self.meth(x, "__getitem__", [i]) for i in range(n)]
        if isinstance(x, Opq):
            raise Unsup(f"iteration over {x}")
        try:
            return iter(x) if not hasattr(x, "__next__") else x
        except TypeError as e:
            raise PyErr("TypeError", str(e))

    def type_(self, x):
        if isinstance(x, Obj):
            return x.cls
        for b in self.builtins.values():
            if isinstance(b, BT) and b.name != "float" and type(x) is b.py:
                return b
        if isinstance(x, Arr):
            return (self.w.np if x.dev == "np" else self.w.cp).ndarray
        return Opq("type")

    def isinst(self, x, t):
        if isinstance(t, tuple):
            return any(self.isinst(x, y) for y in t)
        if isinstance(t, NDArray):
            return isinstance(x, Arr) and x.dev == t.dev
        if isinstance(t, BT):
            return isinstance(x, t.py) and not (t.name == "int" and False)
        if isinstance(t, Cls):
            return isinstance(x, Obj) and t in x.cls.mro()
        if isinstance(t, Opq):
            n = t.name.split(".")[-1]
            if n in ("Sized",):
                return isinstance(x, (list, tuple, Arr, dict, str)) or isinstance(x, Obj) and x.cls.find("__len__")[0] is not None
            if n in ("Generator", "Iterator", "GeneratorType"):
                return hasattr(x, "__next__")
            if n in ("Iterable",):
                return isinstance(x, (list, tuple, Arr, dict)) or hasattr(x, "__next__")
            if n in ("Sequence",):
                return isinstance(x, (list, tuple, str))
            if n in ("integer", "floating", "Number"):
                return isinstance(x, int) and n != "floating"
            return False
        if callable(t):
            return False
        raise Unsup(f"isinstance with {t!r}")

    def hasattr_(self, o, n):
        try:
            self.attr(o, n, None)
            return True
        except PyErr as e:
            if e.kind == "AttributeError":
                return False
            raise

    def getattr_(self, o, n, *d):
        try:
            return self.attr(o, n, None)
        except PyErr as e:
            if e.kind == "AttributeError" and d:
                return d[0]
            raise

    def setattr_(self, o, n, v):
        if isinstance(o, Obj):
            st = o.cls.setter(n)
            if st is not None:
                self.call(Bound(Fn(st[1], st[0].mod, cls=st[0], lang=st[0].mod.lang), o), [v], {})
                return
            o.at[n] = v
        elif isinstance(o, Cls):
            o.vals[n] = v
        elif isinstance(o, Partial):
            pass
        elif isinstance(o, Fn):
            o.at[n] = v
        elif isinstance(o, Struct):
            o.f[n] = v
        elif isinstance(o, Arr) and n == "shape":
            try:
                o.d.shape = tuple(int(x) for x in v)
            except (ValueError, AttributeError) as e:
                raise PyErr("ValueError", str(e))
        else:
            raise Unsup(f"attribute {n} of {type(o).__name__} is set")

    def truth(self, x):
        if x is UNINIT:
            x._bad()
        if isinstance(x, Obj):
            if x.cls.find("__len__")[0]:
                return self.len_(x) > 0
            return True
        if isinstance(x, Opq):
            raise Unsup(f"branch on {x}")
        return bool(x)

    def pow(self, a, b):
        if isinstance(a, (P, Arr)) or isinstance(b, (P, Arr)):
            return a ** b
        if isinstance(a, int) and isinstance(b, int) and b >= 0:
            return a ** b
        if num(b).denominator == 1:
            return num(a) ** int(b)
        return fun("pow", a, b)

    # -- attributes
    ARR = {"shape", "ndim", "size", "dtype", "T", "flags", "data", "itemsize", "nbytes", "strides", "item", "tolist", "reshape", "transpose", "swapaxes", "ravel", "flatten",
           "squeeze", "copy", "fill", "astype", "view", "sum", "mean", "max", "min", "argmax", "argmin", "all", "any", "prod", "cumsum", "dot", "clip", "repeat", "sort", "base"}

    def attr(self, o, n, fr):
        if isinstance(o, Arr):
            if n in self.ARR:
                return getattr(o, n)
            if n in ("var", "std"):
                def var(axis=None, keepdims=False, **k):
                    d = o - o.mean(axis=axis, keepdims=True)
                    v = (d * d).mean(axis=axis, keepdims=keepdims)
                    return v if n == "var" else (self.w.np if o.dev == "np" else self.w.cp).sqrt(v)
                return var
            if n in DUNDER:
                return lambda x: self.bop(DUNDER[n], o, x, fr)
            if n in IDUNDER:
                return lambda x: self.inop(IDUNDER[n], o, x, fr)
            if n == "get" and o.dev == "cp":
                return o.get
            if n == "device" and o.dev == "cp":
                return Opq("device")
            if hasattr(np.ndarray, n) and n not in ("get",) and not n.startswith("__array"):
                if n == "__len__":
                    if o.ndim == 0:
                        raise PyErr("AttributeError", n)
                    return lambda: len(o)
                raise Unsup(f"array attribute {n}")
            raise PyErr("AttributeError", f"array has no attribute {n}")
        if isinstance(o, Obj):
            if n in o.at:
                return o.at[n]
            if n == "__class__":
                return o.cls
            if n in self.w.methods and any(k.name == "Ops" for k in o.cls.mro()):
                return self.w.methods[n]
            c, s = o.cls.find(n)
            if c is None:
                c2, s2 = o.cls.find("__getattr__")
                if c2 is not None:
                    return self.meth(o, "__getattr__", [n])
                raise PyErr("AttributeError", f"{o.cls.name} object has no attribute {n}")
            return self.clsattr(c, s, o)
        if isinstance(o, Super):
            c, s = o.obj.cls.find(n, o.cls) if isinstance(o.obj, Obj) else (None, None)
            if c is None:
                if n in ("__init__", "__init_subclass__"):
                    return lambda *a, **k: None
                raise PyErr("AttributeError", n)
            return self.clsattr(c, s, o.obj)
        if isinstance(o, Cls):
            if n in ("__name__", "__qualname__"):
                return o.name
            for k in o.mro():
                if n in k.vals and n not in k.table:
                    return k.vals[n]
            c, s = o.find(n)
            if c is None:
                raise PyErr("AttributeError", n)
            return self.clsattr(c, s, None, o)
        if isinstance(o, Struct):
            if n not in o.f:
                raise Unsup(f"field {n} of {o.name}")
            return o.f[n]
        if isinstance(o, Lib):
            if n not in o.d:
                raise Unsup(f"library function {n}")
            return o.d[n]
        if isinstance(o, Mod):
            try:
                return o.get(n)
            except KeyError:
                raise PyErr("AttributeError", n)
        if isinstance(o, (XP, Rand, DataRef, Flags, DT, PathV)) or type(o).__name__ in ("At", "LinAlg"):
            if isinstance(o, DataRef) and n == "ptr" and o.a.dev != "cp":
                raise PyErr("AttributeError", n)
            if not hasattr(o, n):
                raise Unsup(f"{type(o).__name__}.{n}")
            return getattr(o, n)
        if isinstance(o, Opq):
            return getattr(o, n)
        if isinstance(o, PyErr):
            return o.msg if n in ("args",) else Opq(n)
        if isinstance(o, (P, Fraction, int, float)) or o is UNINIT:
            if n == "item":
                return lambda: o
            if n == "astype":           # a NumPy scalar
                return lambda dt=None, **k: Arr(cells(o), "float64", self.w.np.dev).astype(dt)
            if n == "dtype":
                return DT("float64")
            if n in ("shape",):
                return ()
            if hasattr(np.float64, n) or hasattr(np.int64, n):
                raise Unsup(f"attribute {n} of a number")
            raise PyErr("AttributeError", f"number has no attribute {n}")
        if isinstance(o, (Fn, Bound, Partial)):
            if n in ("__doc__", "__module__"):
                return None
            if n in ("__name__", "__qualname__") and not isinstance(o, Partial):
                return (o.fn if isinstance(o, Bound) else o).name
            if n == "__func__" and isinstance(o, Bound):
                return o.fn
            if n == "__self__" and isinstance(o, Bound):
                return o.obj
            if isinstance(o, Partial) and n in ("func", "args", "keywords"):
                return getattr(o, n)
            if isinstance(o, Fn) and n in o.at:
                return o.at[n]
            raise PyErr("AttributeError", n)
        if isinstance(o, BT):
            return lambda *a, **k: getattr(o.py, n)(*a, **k)
        if isinstance(o, (list, dict, tuple, str, set, frozenset, range, bytes, DefDict)):
            if n == "sort" and isinstance(o, list):
                def sort(key=None, reverse=False):
                    o.sort(key=(lambda x: self.call(key, [x], {})) if key is not None else None, reverse=reverse)
                return sort
            if hasattr(o, n):
                return getattr(o, n)
            raise PyErr("AttributeError", n)
        if o is None:
            raise PyErr("AttributeError", f"None has no attribute {n}")
        if hasattr(o, n):
            return getattr(o, n)
        raise PyErr("AttributeError", f"{type(o).__name__} has no attribute {n}")

    def clsattr(self, c, s, o, cls=None):
        if isinstance(s, ast.FunctionDef):
            f = Fn(s, c.mod, cls=c, lang=c.mod.lang)
            if f.static:
                return f
            if f.classm:
                return Bound(f, cls or o.cls)
            if o is None:
                return f
            if f.prop:
                return self.call(f, [o], {})
            return Bound(f, o)
        n = next((k for k, x in c.table.items() if x is s), None)
        if n is not None and n in c.vals:
            v = c.vals[n]
        else:
            v = self.e(s, Frame(None, c.mod, c.mod.lang))
            if n is not None and not isinstance(v, (Arr, Obj)):
                c.vals[n] = v
        if isinstance(v, Fn) and o is not None and not v.static:
            return Bound(v, o)
        return v

    def meth(self, o, n, args):
        return self.call(self.attr(o, n, None), args, {})

    # -- calls
    def call(self, f, args, kw, fr=None):
        if isinstance(f, Bound):
            return self.call(f.fn, [f.obj] + args, kw, fr)
        if isinstance(f, Fn):
            return self.fn(f, args, kw)
        if isinstance(f, Cls):
            return self.new(f, args, kw)
        if isinstance(f, Extern):
            return self.extern(f, args)
        if isinstance(f, Obj):
            return self.call(self.attr(f, "__call__", None), args, kw)
        if isinstance(f, BT):
            return f.conv(*args, **kw)
        if isinstance(f, Opq):
            if f.name.startswith("typing."):
                return Opq(f.name + "()")
            raise Unsup(f"call of {f}")
        if isinstance(f, DT):
            return cell(args[0], f) if args else 0
        if f is None:
            raise PyErr("TypeError", "'NoneType' object is not callable")
        if not callable(f):
            raise PyErr("TypeError", f"{f!r} is not callable")
        try:
            return f(*args, **kw)
        except RecursionError:
            raise Unsup("recursion")
        except (Unsup, Viol, PyErr, Fuel):
            raise
        except TypeError as e:
            if "argument" in str(e) and ("unexpected" in str(e) or "takes" in str(e) or "missing" in str(e)):
                raise Unsup(f"call of a library function: {e}")
            raise PyErr("TypeError", str(e))
        except AttributeError as e:
            raise Unsup(f"library function: {e}")
        except (KeyError, IndexError, ValueError, OverflowError) as e:
            raise PyErr(type(e).__name__, str(e))

    def new(self, c, args, kw):
        o = Obj(c)
        ic, s = c.find("__init__")
        if ic is not None:
            self.call(Bound(Fn(s, ic.mod, cls=ic, lang=ic.mod.lang), o), args, kw)
            return o
        fields = []
        for k in reversed(c.mro()):
            for n, d in k.fields:
                fields = [x for x in fields if x[0] != n] + [(n, d, k)]
        if fields and any(k.dc for k in c.mro()):
            if len(args) > len(fields):
                raise PyErr("TypeError", "too many arguments")
            for (n, d, k), v in zip(fields, args):
                o.at[n] = v
            for n, v in kw.items():
                if n not in [x[0] for x in fields]:
                    raise PyErr("TypeError", f"unexpected argument {n}")
                o.at[n] = v
            for n, d, k in fields:
                if n not in o.at:
                    if d is None:
                        raise PyErr("TypeError", f"missing argument {n}")
                    fr = Frame(None, k.mod, k.mod.lang)
                    if isinstance(d, ast.Call) and ast.unparse(d.func) in ("field", "dataclasses.field"):
                        v = UNINIT
                        for q in d.keywords:
                            v = self.e(q.value, fr) if q.arg == "default" else (self.call(self.e(q.value, fr), [], {}) if q.arg == "default_factory" else v)
                        o.at[n] = v
                    else:
                        o.at[n] = self.e(d, fr)
            pc, ps = c.find("__post_init__")
            if pc is not None:
                self.meth(o, "__post_init__", [])
            return o
        if args or kw:
            raise PyErr("TypeError", f"{c.name}() takes no arguments")
        return o

    def bind(self, f, args, kw, fr):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        kwonly = [p.arg for p in a.kwonlyargs]
        pack = getattr(f.node, "_pack", None) or []
        v = {}
        if f.lang in ("cpp", "cu"):
            for p, x in zip(params, args):
                if isref(f.node._ctypes.get(p, "")) and isinstance(x, Ptr):
                    fr.refs = fr.refs or {}
                    fr.refs[p] = x
        if pack:
            k = params.index(pack[0])
            v.update(zip(params[:k], args[:k]))
            v[pack[0]] = list(args[k:])
            return v
        if len(args) > len(params) and a.vararg is None:
            raise PyErr("TypeError", f"{f.name}() takes {len(params)} positional arguments but {len(args)} were given")
        v.update(zip(params, args))
        if a.vararg:
            v[a.vararg.arg] = tuple(args[len(params):])
        extra = {}
        for k, x in kw.items():
            if k in params or k in kwonly:
                if k in v:
                    raise PyErr("TypeError", f"{f.name}() got multiple values for argument {k}")
                v[k] = x
            elif a.kwarg:
                extra[k] = x
            else:
                raise PyErr("TypeError", f"{f.name}() got an unexpected keyword argument {k}")
        if a.kwarg:
            v[a.kwarg.arg] = extra
        dfr = Frame(None, f.mod, f.lang)
        for p, d in zip(params[len(params) - len(a.defaults):], a.defaults):
            if p not in v:
                v[p] = self.e(d, dfr)
        for p, d in zip(kwonly, a.kw_defaults):
            if p not in v:
                if d is None:
                    raise PyErr("TypeError", f"{f.name}() missing keyword argument {p}")
                v[p] = self.e(d, dfr)
        for p in params:
            if p not in v:
                raise PyErr("TypeError", f"{f.name}() missing argument {p}")
        return v

    def fn(self, f, args, kw):
        if len(self.stack) > 60:
            raise Unsup("recursion")
        fr = Frame(f, f.mod, f.lang, f.closure)
        fr.v = self.bind(f, args, kw, fr)
        if isinstance(f.node, ast.Lambda):
            return self.e(f.node.body, fr)
        rel = f.mod.rel if f.mod else getattr(f.node, "_file", "?")
        self.w.used.add((rel, (f.cls.name + "." if f.cls else "") + f.name))
        if f.lang == "cy":
            self.cyargs(f, fr)
        elif f.lang in ("cpp", "cu"):
            fr.types = dict(getattr(f.node, "_ctypes", {}))
        self.stack.append(f"{rel}:{f.name}")
        try:
            if f.gen and any(d.split(".")[-1] == "contextmanager" for d in f.decs):
                def body(co, fr=fr):
                    fr.yields = co
                    self.stack.append(f"{rel}:{f.name}")
                    self.block(f.node.body, fr)
                return CtxMgr(Coroutine(self, body))
            if f.gen:
                fr.yields = []
            r = self.block(f.node.body, fr)
            if f.gen:
                return iter(fr.yields)
            return r[1] if isinstance(r, tuple) else None
        except Viol as v:
            if not v.where:
                v.where = f"{rel}:{(f.cls.name + '.') if f.cls else ''}{f.name}"
            raise
        finally:
            self.stack.pop()

    def extern(self, f, args):
        fns = self.w.cppfile(f.path).get(f.name)
        if not fns:
            raise Viol(f"{f.name} is declared but not defined in {os.path.basename(f.path)}")
        node = fns[-1]
        byT = {}
        for p, v in zip(node.args.args, args):
            m = re.match(r"(?:const )?(\w+) (?:const )?\*$", node._ctypes[p.arg].strip())
            if m and isinstance(v, Ptr):
                if m[1] in CTYPES and DT(CTYPES[m[1]]) != v.t:
                    raise Viol(f"{f.name} reads {m[1]} and is given {v.t}")
                if byT.setdefault(m[1], v.t) != v.t:
                    raise Viol(f"{f.name} is given buffers of {byT[m[1]]} and {v.t}")
        fn = Fn(node, None, lang="cpp")
        try:
            return self.fn(fn, args, {})
        except PyErr as e:
            if not f.exc:
                raise Viol(f"{f.name} throws ({e.kind}), but is declared without 'except +': the process ends", f"{os.path.relpath(f.path, self.w.root)}:{f.name}")
            raise

    # -- Cython types
    def cyargs(self, f, fr):
        types = getattr(f.node, "_ctypes", {})
        fr.types = types
        fus = f.mod.fuseds
        a = f.node.args
        for p in a.args + a.kwonlyargs:
            t = types.get(p.arg)
            if t is None:
                continue
            v = fr.v[p.arg]
            if t in fus:
                cand = [m for m in fus[t] if self.fits(v, f.mod.typedefs.get(m, m))]
                if not cand:
                    raise PyErr("TypeError", "No matching signature found")
                if t in fr.fused and fr.fused[t] not in cand:
                    raise PyErr("ValueError", "Buffer dtype mismatch")
                fr.fused.setdefault(t, Tok(cand[0]))
                continue
            fr.v[p.arg] = self.coerce(v, t, fr, arg=True)
        for n, t in types.items():
            m = re.match(r"(\w+)\[(\d+|\?)\]$", t)
            if m and n not in fr.v and m[1] in CTYPES:
                size = int(m[2]) if m[2].isdigit() else 64
                fr.v[n] = Ptr(obj((size,), UNINIT), 0, DT(CTYPES[m[1]]))

    def fits(self, v, t):
        m = re.match(r"(?:const )?([\w. ]+)\[([:,1 ]+)\]$", t)
        if not m or not isinstance(v, Arr):
            return False
        axes = m[2].split(",")
        return v.dtype == DT(CTYPES[m[1].strip()]) and v.ndim == len(axes) and (not axes[-1].endswith("1") or v.contig) and v.dev == "np"

    def coerce(self, v, t, fr, arg=False):
        t = re.sub(r"\bconst ", "", t).strip()
        if fr.mod is not None and t in getattr(fr.mod, "typedefs", {}):
            t = fr.mod.typedefs[t]
        if t.endswith("*") or "(*" in t:
            if isinstance(v, Ptr):
                b = t.rstrip("* ").strip()
                if b in CTYPES and t.count("*") == 1 and DT(CTYPES[b]) != v.t:
                    raise Viol(f"a pointer to {v.t} is used as a pointer to {b}")
            return v
        if "[" in t:
            if t.startswith("np.ndarray"):
                if v is None:
                    return v
                if not isinstance(v, Arr) or v.dev != "np":
                    raise PyErr("TypeError", "expected a numpy array")
                inner = t[t.index("[") + 1:-1].split(",")
                if inner[0] not in CTYPES:
                    raise Unsup(f"buffer type {t}")
                nd = 1
                for x in inner[1:]:
                    if x.startswith("ndim="):
                        nd = int(x[5:])
                if v.ndim != nd or v.dtype != DT(CTYPES[inner[0]]) or ("mode=c" in inner and not v.contig):
                    raise PyErr("ValueError", "Buffer has wrong number of dimensions, element type or layout")
                return v
            if re.match(r"[\w. ]+\[[:,1 ]+\]$", t):
                if v is None:
                    return v
                if not self.fits(v, t):
                    if not isinstance(v, Arr) or v.dev != "np":
                        raise PyErr("TypeError", "a buffer is required")
                    raise PyErr("ValueError", "Buffer dtype mismatch or not contiguous")
                return v
            return v
        if t in ("np.ndarray", "ndarray"):
            if v is not None and (not isinstance(v, Arr) or v.dev != "np"):
                raise PyErr("TypeError", f"expected numpy.ndarray, got {type(v).__name__}")
            return v
        if t in ("bint", "bool", "_Bool"):
            return self.truth(v)
        if t in ("auto", "") or t not in CTYPES:
            if isinstance(v, list) and fr.lang in ("cpp", "cu"):
                n = t.split("<")[0].strip()
                fs = getattr(fr.fn.node, "_structs", {}).get(n) if fr.fn else None
                if fs:
                    return Struct(n, dict(zip(fs, v)))
                if len(v) <= 1:
                    return v[0] if v else 0
            return v
        d = DT(CTYPES[t])
        if v is UNINIT:
            v._bad()
        if isinstance(v, Arr):
            if v.size != 1:
                raise PyErr("TypeError", "only size-1 arrays can be converted to scalars")
            v = v.item()
        if v is None or isinstance(v, (str, list, tuple, Obj)):
            raise PyErr("TypeError", f"must be a number, not {type(v).__name__}")
        if isinstance(v, (Opaque,)):
            return v
        if d.isfloat:
            return v if isinstance(v, P) or isinstance(v, float) and v in (float("inf"), float("-inf")) else num(v)
        if isinstance(v, P):
            raise Unsup("a symbolic value is stored in an integer variable")
        if arg and isinstance(v, (Fraction, float)) and fr.lang == "cy":
            raise PyErr("TypeError", "an integer is required")
        n = int(v)
        if d.kind == "u" and d.itemsize == 8 or t == "uint32_t":
            n %= 1 << (8 * d.itemsize)
        return n

    # -- statements
    def block(self, body, fr):
        for s in body:
            r = self.s(s, fr)
            if r is not None:
                return r
        return None

    def s(self, s, fr):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        k = type(s)
        if k is ast.Expr:
            if not isinstance(s.value, ast.Constant):
                self.e(s.value, fr)
            return None
        if k is ast.Assign:
            v = self.e(s.value, fr)
            for t in s.targets:
                self.store(t, v, fr)
            return None
        if k is ast.AugAssign:
            return self.aug(s, fr)
        if k is ast.AnnAssign:
            if fr.lang in ("cpp", "cu"):
                t = getattr(s, "_ctype", "")
                fr.types[s.target.id] = t
                m = re.match(r"(?:const )?(\w+) ?\[(\d+)\]$", t)
                if m and s.value is None:
                    fr.v[s.target.id] = Ptr(obj((int(m[2]),), UNINIT), 0, DT(CTYPES[m[1]]) if m[1] in CTYPES else m[1])
                    return None
                if fr.refs is not None:
                    fr.refs.pop(s.target.id, None)
                if "&" in t and s.value is not None and (isref(t) or isinstance(s.value, (ast.Name, ast.Subscript))):
                    fr.refs = fr.refs or {}
                    fr.refs[s.target.id] = self.addr(s.value, fr)
                    return None
                fr.v[s.target.id] = self.coerce(self.e(s.value, fr), t, fr) if s.value is not None else UNINIT
                return None
            if s.value is not None:
                self.store(s.target, self.e(s.value, fr), fr)
            return None
        if k is ast.If:
            return self.block(s.body if self.truth(self.e(s.test, fr)) else s.orelse, fr)
        if k is ast.Return:
            return ("ret", self.e(s.value, fr) if s.value is not None else None)
        if k is ast.For:
            it = self.e(s.iter, fr)
            for x in self.iter(it):
                self.fuel -= 1
                if self.fuel < 0:
                    raise Fuel()
                self.store(s.target, x, fr)
                r = self.block(s.body, fr)
                if r == "break":
                    return None
                if r is not None and r != "continue":
                    return r
            return self.block(s.orelse, fr)
        if k is ast.While:
            while self.truth(self.e(s.test, fr)):
                self.fuel -= 1
                if self.fuel < 0:
                    raise Fuel()
                r = self.block(s.body, fr)
                if r == "break":
                    return None
                if r is not None and r != "continue":
                    return r
                for x in getattr(s, "_inc", ()):
                    self.s(x, fr)
            return self.block(s.orelse, fr)
        if k is ast.Break:
            return "break"
        if k is ast.Continue:
            return "continue"
        if k in (ast.Pass, ast.Global, ast.Nonlocal):
            if k is ast.Nonlocal:
                fr.globs |= set(s.names)
            return None
        if k is ast.Raise:
            e = self.e(s.exc, fr) if s.exc is not None else PyErr("RuntimeError", "re-raised")
            if isinstance(e, ExcT):
                e = e()
            if isinstance(e, PyErr):
                raise e
            raise PyErr(getattr(e, "name", "Exception"), "")
        if k is ast.Assert:
            if not self.truth(self.e(s.test, fr)):
                raise PyErr("AssertionError", ast.unparse(s.test)[:80])
            return None
        if k is ast.FunctionDef:
            fr.v[s.name] = Fn(s, fr.mod, closure=fr, lang=fr.lang)
            return None
        if k is ast.With:
            return self.with_(s, list(s.items), fr)
        if k is ast.Try:
            try:
                try:
                    r = self.block(s.body, fr)
                except PyErr as e:
                    for h in s.handlers:
                        names = {ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])} if h.type is not None else {"Exception"}
                        if names & ({e.kind, "Exception", "BaseException"} | SUPERS.get(e.kind, set())):
                            if h.name:
                                fr.v[h.name] = e
                            r = self.block(h.body, fr)
                            break
                    else:
                        raise
                else:
                    if r is None:
                        r = self.block(s.orelse, fr)
            except PyErr:
                r = self.block(s.finalbody, fr)
                if r is not None:
                    return r
                raise
            return self.block(s.finalbody, fr) or r
        if k is ast.Delete:
            for t in s.targets:
                if isinstance(t, ast.Name):
                    fr.v.pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    del self.e(t.value, fr)[self.e(t.slice, fr)]
                else:
                    raise Unsup("del")
            return None
        if k in (ast.Import, ast.ImportFrom):
            for a in s.names:
                fr.v[a.asname or a.name.split(".")[0]] = fr.mod.imp(a.name, s, a)
            return None
        if k is ast.ClassDef:
            fr.v[s.name] = Cls(s, fr.mod)
            return None
        raise Unsup(f"statement {k.__name__}")

    def ctx(self, m):
        """How to enter and leave a context manager."""
        if isinstance(m, CtxMgr):
            return m.enter, m.leave
        if isinstance(m, Obj) and m.cls.find("__enter__")[0]:
            return (lambda: self.meth(m, "__enter__", [])), (lambda e: self.truth(self.meth(m, "__exit__", [None if e is None else Opq("type"), e, None])))
        return None, None

    def with_(self, s, items, fr):
        if not items:
            return self.block(s.body, fr)
        it, rest = items[0], items[1:]
        try:
            m = self.e(it.context_expr, fr)
        except Unsup:
            if fr.lang in ("cy", "cpp", "cu") and it.optional_vars is None:
                return self.with_(s, rest, fr)
            raise
        enter, leave = self.ctx(m)
        if it.optional_vars is not None and enter is None and not isinstance(m, (Opq, NullCtx)):
            raise Unsup("with ... as")
        v = enter() if enter else m
        leave = leave or (lambda e: False)
        if it.optional_vars is not None:
            self.store(it.optional_vars, v, fr)
        try:
            r = self.with_(s, rest, fr)
        except PyErr as e:
            if not leave(e):
                raise
            return None
        leave(None)
        return r

    def deepcopy(self, x):
        if isinstance(x, Obj):
            m = x.cls.find("__deepcopy__")[0]
            if m is not None:
                return self.meth(x, "__deepcopy__", [{}])
            o = Obj(x.cls)
            o.at.update({k: self.deepcopy(v) for k, v in x.at.items()})
            return o
        if isinstance(x, (list, tuple)):
            return type(x)([self.deepcopy(y) for y in x])
        if isinstance(x, dict):
            return {k: self.deepcopy(v) for k, v in x.items()}
        if isinstance(x, Arr):
            return x.copy()
        return x

    def aug(self, s, fr):
        v = self.e(s.value, fr)
        t = s.target
        op = type(s.op)
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr)
            self.store(t, self.inop(op, cur, v, fr), fr)
        elif isinstance(t, ast.Subscript):
            b = self.e(t.value, fr)
            i = self.sl(t.slice, fr)
            cur = self.getitem(b, i, fr)
            self.setitem(b, i, self.inop(op, cur, v, fr), fr)
        elif isinstance(t, ast.Attribute):
            b = self.e(t.value, fr)
            self.setattr_(b, t.attr, self.inop(op, self.attr(b, t.attr, fr), v, fr))
        elif isinstance(t, ast.Call):            # *p++ += ...
            raise Unsup("assignment to an expression")
        return None

    def inop(self, op, a, b, fr):
        if isinstance(a, Arr) or isinstance(a, list):
            f = IBIN.get(op)
            if f:
                try:
                    return f(a, b)
                except TypeError as e:
                    raise PyErr("TypeError", str(e))
        return self.bop(op, a, b, fr)

    def store(self, t, v, fr):
        if isinstance(t, ast.Name):
            n = t.id
            if fr.refs is not None and n in fr.refs:
                fr.refs[n][0] = v
                return
            ct = fr.types.get(n)
            if ct is not None:
                v = self.coerce(v, ct, fr)
            elif fr.lang == "cy" and isinstance(v, tuple) and len(v) == 2 and v[0] is Ellipsis:
                pass
            if n in fr.globs:
                u = fr.up
                while u is not None:
                    if n in u.v:
                        u.v[n] = v
                        return
                    u = u.up
            fr.v[n] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iter(v))
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                after = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    raise PyErr("ValueError", "not enough values to unpack")
                mid = vs[i:len(vs) - after]
                vs = vs[:i] + [mid] + vs[len(vs) - after:]
            if len(vs) != len(t.elts):
                raise PyErr("ValueError", "wrong number of values to unpack")
            for x, y in zip(t.elts, vs):
                self.store(x.value if isinstance(x, ast.Starred) else x, y, fr)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.e(t.value, fr), self.sl(t.slice, fr), v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.e(t.value, fr), t.attr, v)
        else:
            raise Unsup("assignment target")

    # -- expressions
    def name(self, n, fr):
        if fr.refs is not None and n in fr.refs:
            return fr.refs[n][0]
        f = fr
        while f is not None:
            if n in f.v:
                return f.v[n]
            if n in f.fused:
                return f.fused[n]
            f = f.up
        if fr.mod is not None:
            try:
                return fr.mod.get(n)
            except KeyError:
                pass
        if fr.lang in ("cpp", "cu") and fr.fn is not None:
            fns = self.w.cppfile(os.path.join(self.w.root, fr.fn.node._file), fr.lang == "cu").get(n) if fr.fn.node._file else None
            if fns:
                return Overload(fns, fr.lang)
            c = fr.fn.node._consts.get(n)
            if c is not None:
                return num(c[0])
            b = self.cbuiltin(n)
            if b is not None:
                return b
        if n in self.builtins:
            return self.builtins[n]
        if fr.lang == "cy":
            b = self.cbuiltin(n)
            if b is not None:
                return b
            if n in CTYPES:
                return Tok(n)
        raise PyErr("NameError", n)

    def sl(self, x, fr):
        if isinstance(x, ast.Slice):
            f = lambda y: None if y is None else self.e(y, fr)
            return slice(f(x.lower), f(x.upper), f(x.step))
        if isinstance(x, ast.Tuple):
            return tuple(self.sl(y, fr) for y in x.elts)
        return self.e(x, fr)

    def oob(self, b, i, fr):
        """Accesses Cython compiles without a bounds check."""
        if fr is not None and fr.lang == "cy" and fr.fn is not None and fr.fn.nobounds and isinstance(b, Arr):
            ix = i if isinstance(i, tuple) else (i,)
            if len(ix) == b.ndim and all(isinstance(x, int) for x in ix) and not all(0 <= x < n for x, n in zip(ix, b.shape)):
                raise Viol(f"element {ix} of an array of shape {b.shape} is accessed without a bounds check")

    def getitem(self, b, i, fr):
        if isinstance(b, Ptr) and isinstance(i, slice):     # the elements of a piece of a raw buffer
            return [b[j] for j in range(i.start or 0, i.stop, i.step or 1)]
        if isinstance(b, (Arr, Ptr)):
            self.oob(b, i, fr)
            return b[i]
        if isinstance(b, Obj):
            return self.meth(b, "__getitem__", [i])
        if b is None:
            if fr is not None and fr.lang in ("cpp", "cu"):
                raise Viol("a null pointer is read")
            raise PyErr("TypeError", "'NoneType' object is not subscriptable")
        if isinstance(b, (Opq, BT, Tok, Cls)):
            return Opq("generic") if not isinstance(b, (Tok,)) else b
        if isinstance(b, itertools.repeat):
            raise PyErr("TypeError", "not subscriptable")
        if isinstance(i, Arr) and not isinstance(b, dict):
            i = i.__index__()
        if isinstance(b, RawMem):
            return b[i]
        try:
            return b[i]
        except (IndexError, KeyError, TypeError) as e:
            raise PyErr(type(e).__name__, str(e))

    def setitem(self, b, i, v, fr):
        if isinstance(b, (Arr, Ptr)):
            self.oob(b, i, fr)
            b[i] = v
            return
        if isinstance(b, Obj):
            self.meth(b, "__setitem__", [i, v])
            return
        if b is None:
            if fr.lang in ("cpp", "cu"):
                raise Viol("a null pointer is written")
            raise PyErr("TypeError", "'NoneType' object does not support item assignment")
        if isinstance(i, Arr) and not isinstance(b, dict):
            i = i.__index__()
        try:
            b[i] = v
        except (IndexError, KeyError, TypeError) as e:
            raise PyErr(type(e).__name__, str(e))

    def bop(self, op, a, b, fr):
        for x in (a, b):
            if x is UNINIT:
                x._bad()
            if isinstance(x, Opq):
                raise Unsup(f"arithmetic with {x}")
        lang = fr.lang if fr is not None else "py"
        try:
            if op is ast.Div:
                if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
                    if b == 0:
                        if lang == "py":
                            raise PyErr("ZeroDivisionError", "division by zero")
                        raise Viol("integer division by zero")
                    if lang == "py":
                        return Fraction(a, b)
                    q = abs(a) // abs(b)
                    return q if (a >= 0) == (b >= 0) else -q
                if isinstance(a, NUM) and isinstance(b, NUM):
                    if b == 0:
                        if lang == "py":
                            raise PyErr("ZeroDivisionError", "float division by zero")
                        return float("inf")
                    if isinstance(b, float) and b in (float("inf"), float("-inf")):
                        return Fraction(0)
                    return num(a) / num(b)
                if isinstance(a, P) and isinstance(b, NUM) and b == 0:
                    return float("inf")
                return a / b
            if op is ast.Pow:
                return self.pow(a, b)
            if op is ast.Mod and lang != "py" and isinstance(a, int) and isinstance(b, int):
                if b == 0:
                    raise Viol("integer division by zero")
                return a - b * (abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1))
            if op is ast.FloorDiv and isinstance(a, int) and isinstance(b, int) and b == 0:
                raise PyErr("ZeroDivisionError", "integer division by zero") if lang == "py" else Viol("integer division by zero")
            if op is ast.Mod and isinstance(a, str):
                return a
            if isinstance(a, Obj):
                m = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.RShift: "__rshift__"}.get(op)
                return self.meth(a, m, [b])
            if isinstance(a, PathV):
                return a / b
            if isinstance(a, float):
                a = num(a) if abs(a) != float("inf") else a
            if isinstance(b, float):
                b = num(b) if abs(b) != float("inf") else b
            if a is None or b is None:
                if lang not in ("py", "cy") and op in (ast.Add, ast.Sub):
                    # A null pointer plus nothing is a null pointer, and two null pointers are no distance apart.
                    if a is None and b is None and op is ast.Sub:
                        return 0
                    if (b if a is None else a) in (0, None):
                        return None
                raise PyErr("TypeError", "unsupported operand None") if lang in ("py", "cy") else Viol("arithmetic on a null pointer")
            return BIN[op](a, b)
        except TypeError as e:
            raise PyErr("TypeError", str(e))

    def cmp(self, op, a, b, fr):
        if op is ast.Is:
            return a is b or (isinstance(a, Tok) and isinstance(b, str) and str(a) == str(b)) or (isinstance(a, (bool,)) and a == b and isinstance(b, bool))
        if op is ast.IsNot:
            return not self.cmp(ast.Is, a, b, fr)
        if op in (ast.In, ast.NotIn):
            if isinstance(b, Obj):
                r = self.truth(self.meth(b, "__contains__", [a]))
            elif isinstance(b, dict):
                r = a in b
            else:
                r = any(x is a or self.truth(x == a) for x in self.iter(b))
            return r if op is ast.In else not r
        for x in (a, b):
            if x is UNINIT:
                x._bad()
        if a is None and b is None and op in (ast.Lt, ast.LtE, ast.Gt, ast.GtE) and fr is not None and fr.lang not in ("py", "cy"):
            return op in (ast.LtE, ast.GtE)
        if isinstance(a, Obj) and op in (ast.Eq, ast.NotEq):
            return (a is b) if op is ast.Eq else (a is not b)
        if isinstance(a, str) and isinstance(b, (Opq,)):
            return op is ast.NotEq
        try:
            if isinstance(a, (float,)) and abs(a) != float("inf"):
                a = num(a)
            if isinstance(b, (float,)) and abs(b) != float("inf"):
                b = num(b)
            return {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[op](a, b)
        except TypeError as e:
            raise PyErr("TypeError", str(e))

    def e(self, x, fr):
        k = type(x)
        if k is ast.Constant:
            return x.value
        if k is ast.Name:
            return self.name(x.id, fr)
        if k is ast.BinOp:
            return self.bop(type(x.op), self.e(x.left, fr), self.e(x.right, fr), fr)
        if k is ast.Subscript:
            b = self.e(x.value, fr)
            if isinstance(b, Opq):
                return Opq("generic")
            return self.getitem(b, self.sl(x.slice, fr), fr)
        if k is ast.Attribute:
            return self.attr(self.e(x.value, fr), x.attr, fr)
        if k is ast.Call:
            return self.callx(x, fr)
        if k is ast.Compare:
            a = self.e(x.left, fr)
            r = True
            for op, c in zip(x.ops, x.comparators):
                b = self.e(c, fr)
                r = self.cmp(type(op), a, b, fr)
                if len(x.ops) > 1 and not self.truth(r):
                    return r
                a = b
            return r
        if k is ast.BoolOp:
            for v in x.values:
                r = self.e(v, fr)
                if self.truth(r) == isinstance(x.op, ast.Or):
                    return r
            return r
        if k is ast.UnaryOp:
            v = self.e(x.operand, fr)
            if isinstance(x.op, ast.Not):
                return not self.truth(v)
            if v is UNINIT:
                v._bad()
            if isinstance(v, float):
                v = num(v)
            return -v if isinstance(x.op, ast.USub) else (~v if isinstance(x.op, ast.Invert) else +v)
        if k is ast.IfExp:
            return self.e(x.body if self.truth(self.e(x.test, fr)) else x.orelse, fr)
        if k in (ast.Tuple, ast.List, ast.Set):
            r = []
            for y in x.elts:
                if isinstance(y, ast.Starred):
                    r.extend(self.iter(self.e(y.value, fr)))
                else:
                    r.append(self.e(y, fr))
            return tuple(r) if k is ast.Tuple else (r if k is ast.List else set(r))
        if k is ast.Dict:
            d = {}
            for a, b in zip(x.keys, x.values):
                if a is None:
                    d.update(self.e(b, fr))
                else:
                    d[self.e(a, fr)] = self.e(b, fr)
            return d
        if k in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            out = []
            cf = Frame(fr.fn, fr.mod, fr.lang, fr)
            self.comp(x, x.generators, cf, out)
            if k is ast.DictComp:
                return dict(out)
            return out if k is ast.ListComp else (set(out) if k is ast.SetComp else iter(out))
        if k is ast.JoinedStr:
            return "".join(str(v.value) if isinstance(v, ast.Constant) else "{}" for v in x.values)
        if k is ast.FormattedValue:
            return "{}"
        if k is ast.Lambda:
            return Fn(x, fr.mod, closure=fr, lang=fr.lang)
        if k is ast.Starred:
            return self.e(x.value, fr)
        if k is ast.Slice:
            return self.sl(x, fr)
        if k is ast.Yield:
            v = self.e(x.value, fr) if x.value is not None else None
            if isinstance(fr.yields, Coroutine):
                fr.yields.give(v)
            else:
                fr.yields.append(v)
            return None
        if k is ast.YieldFrom:
            fr.yields.extend(self.iter(self.e(x.value, fr)))
            return None
        if k is ast.NamedExpr:
            v = self.e(x.value, fr)
            self.store(x.target, v, fr)
            return v
        raise Unsup(f"expression {k.__name__}")

    def comp(self, x, gens, fr, out):
        if not gens:
            if isinstance(x, ast.DictComp):
                out.append((self.e(x.key, fr), self.e(x.value, fr)))
            else:
                out.append(self.e(x.elt, fr))
            return
        g = gens[0]
        for v in self.iter(self.e(g.iter, fr)):
            self.store(g.target, v, fr)
            if all(self.truth(self.e(c, fr)) for c in g.ifs):
                self.comp(x, gens[1:], fr, out)

    def callx(self, x, fr):
        f = x.func
        if isinstance(f, ast.Name):
            n = f.id
            if n == "__cast__":
                return self.cast(x, fr)
            if n == "__addr__":
                return self.addr(x.args[0], fr)
            if n in ("__sizeof__", "sizeof"):
                return self.sizeof(x.args[0], fr)
            if n in ("__incr__", "__preincr__"):
                return self.incr(x, fr, n == "__incr__")
            if n == "__unknown__":
                raise Unsup("C++ construct")
            if n == "__construct__":
                return [self.e(a, fr) for a in x.args[1:]]
            if n == "super":
                if x.args:
                    c = self.e(x.args[0], fr)
                    return Super(c, self.e(x.args[1], fr))
                g = fr
                while g is not None and (g.fn is None or g.fn.cls is None):
                    g = g.up
                first = g.fn.node.args.args[0].arg
                return Super(g.fn.cls, g.v[first])
            if n == "locals":
                raise Unsup("locals()")
            if n == "assert" or n == "static_assert":
                return None
        fv = self.e(f, fr)
        args = []
        for a in x.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iter(self.e(a.value, fr)))
            else:
                args.append(self.e(a, fr))
        kw = {}
        for q in x.keywords:
            if q.arg is None:
                kw.update(self.e(q.value, fr))
            else:
                kw[q.arg] = self.e(q.value, fr)
        if isinstance(fv, Overload):
            fv = fv.pick(args)
            for i, p in enumerate(fv.node.args.args[:len(x.args)]):
                if isref(fv.node._ctypes.get(p.arg, "")) and not any(isinstance(a, ast.Starred) for a in x.args):
                    args[i] = self.addr(x.args[i], fr)
        return self.call(fv, args, kw, fr)

    def cast(self, x, fr):
        t = x.args[0].value
        if t in CEXC or t.startswith("std::") and ("error" in t or "argument" in t or "range" in t or "exception" in t):
            return PyErr(CEXC.get(t, "RuntimeError"), "")
        if len(x.args) < 2:
            return 0
        if "string" in t:
            return "msg"
        v = self.e(x.args[1], fr)
        t = re.sub(r"\bconst\b", "", t).strip()
        if t.endswith("*"):
            b = t.rstrip("* ").strip()
            want = DT(CTYPES[b]) if b in CTYPES and b not in ("char",) else None
            if isinstance(v, DataRef):
                if b == "void":
                    return pointer(v.a)
                return pointer(v.a, want, ast.unparse(x.args[1]))
            if isinstance(v, Ptr):
                if want is not None and isinstance(v.t, DT) and v.t != want:
                    raise Viol(f"a buffer of {v.t} is read as {b}")
                return v
            if isinstance(v, RawMem):
                return Ptr(obj((v.n,), 0), 0, want)
            if v is None:
                return None
            if isinstance(v, Arr):
                raise Viol("an array object is used as an address")
            return v
        if fr.lang in ("cpp", "cu") and t not in CTYPES:
            return v
        if t in ("np.ndarray", "object", "list", "dict", "tuple", "str"):
            return v
        if t in FLOATS:
            return v if isinstance(v, P) else (num(v) if isinstance(v, NUM) else v)
        if t in CTYPES:
            return self.coerce(v, t, fr)
        return v

    def addr(self, a, fr):
        if isinstance(a, ast.Name):
            if fr.refs is not None and a.id in fr.refs:
                return fr.refs[a.id]
            if a.id in fr.v:
                return VarPtr(self, fr, a.id)
        if isinstance(a, ast.Subscript):
            b = self.e(a.value, fr)
            i = self.sl(a.slice, fr)
            if isinstance(b, Ptr):
                return b + i
            if isinstance(b, Arr):
                ix = i if isinstance(i, tuple) else (i,)
                if len(ix) != b.ndim:
                    raise Unsup("address of a row")
                off = 0
                self.oob(b, i, fr)
                for j, n in zip(ix, b.shape):
                    j = self.index(j)
                    if j < 0:
                        j += n
                    if not 0 <= j < n:
                        raise PyErr("IndexError", "Out of bounds on buffer access")
                    off = off * n + j
                return pointer(b) + off
            if b is None:
                raise Viol("the address of an element of a null pointer is taken")
        raise Unsup("address of a variable")

    def sizeof(self, a, fr):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            t = re.sub(r"\bconst\b", "", a.value).strip()
            if t in CTYPES:
                return SIZE[CTYPES[t]]
            raise Unsup(f"sizeof {t}")
        if isinstance(a, ast.Name) and a.id in CTYPES and a.id not in fr.v:
            return SIZE[CTYPES[a.id]]
        if isinstance(a, ast.Subscript):
            b = self.e(a.value, fr)
            if isinstance(b, Ptr):
                return b.t.itemsize
            if b is None:
                t = re.sub(r"\bconst\b|\*", "", fr.types.get(ast.unparse(a.value), "")).strip()
                if t in CTYPES:
                    return SIZE[CTYPES[t]]
        if isinstance(a, ast.Name):
            t = re.sub(r"\bconst\b", "", fr.types.get(a.id, "")).strip()
            if t in CTYPES:
                return SIZE[CTYPES[t]]
            for p, ct in fr.types.items():      # sizeof(T): what the pointers to T hold
                if re.match(rf"(const )?{a.id} (const )?\*$", ct) and isinstance(fr.v.get(p), Ptr):
                    return fr.v[p].t.itemsize
        raise Unsup("sizeof")

    def incr(self, x, fr, post):
        t = x.args[0]
        d = x.args[1].value
        cur = self.e(t, fr)
        self.store(t, cur + d, fr)
        return cur if post else cur + d


def isref(t):
    """A reference through which a C++ function can write."""
    return "&" in t and "&&" not in t and "const" not in t


class VarPtr(Ptr):
    """The address of a variable."""
    __slots__ = ("ev", "fr", "n")

    def __init__(self, ev, fr, n):
        self.ev, self.fr, self.n = ev, fr, n
        ct = re.sub(r"\bconst\b|&", "", fr.types.get(n, "")).strip()
        Ptr.__init__(self, [None], 0, DT(CTYPES[ct]) if ct in CTYPES else ct)

    def at(self, i, k):
        if i != 0:
            raise Viol(f"{k} past a variable")

    def __getitem__(self, i):
        self.at(i, "reads")
        return self.ev.name(self.n, self.fr)

    def __setitem__(self, i, v):
        self.at(i, "writes")
        self.ev.store(ast.Name(id=self.n, ctx=ast.Store()), v, self.fr)

    def __add__(self, n):
        if n:
            raise Unsup("an offset from the address of a variable")
        return self
    __radd__ = __sub__ = __add__


class RawMem:
    def __init__(self, n):
        self.n = n


class Overload:
    def __init__(self, fns, lang):
        self.fns, self.lang = fns, lang

    def pick(self, args):
        best = None
        for f in self.fns:
            ps = f.args.args
            pack = getattr(f, "_pack", None) or []
            if not len(ps) - len(f.args.defaults) <= len(args) <= len(ps) and not (pack and len(args) >= len(ps)):
                continue
            ok = True
            for p, v in zip(ps, args):
                if isinstance(v, str) and ("char" in f._ctypes[p.arg] or "string" in f._ctypes[p.arg]):
                    continue
                isp = "*" in f._ctypes[p.arg] or "ptr" in f._ctypes[p.arg]
                if p.arg not in pack and isp != (isinstance(v, Ptr) or v is None or isinstance(v, Blas)):
                    ok = False
            if ok:
                best = f if best is None or pack == [] else best
        if best is None:
            raise Unsup(f"no definition of {self.fns[0].name} is known to take these arguments")
        return Fn(best, None, lang=self.lang)


def cell(v, t):
    return conv(cells(v) if not isinstance(v, P) else obj((), v), t).item()
