"""Abstract objects for the analyses of object state: representative models
built through the public constructor, and their state observed through the
public accessors."""
import ast

from .heap import HeapInterp, Scenario, Trace, distinct, Gen
from .interp import (Func, Partial, Class, Builtin, Obj, Term, Stop, Budget, mk, const, NONE, TRUE, FALSE, is_const, cval, _unwrap, fmt)
from .flow import short


def D(it=None, **k):
    o = Obj("dict")
    o.items = [(const(a), b) for a, b in k.items()]
    return o


def L(*a):
    o = Obj("list")
    o.items = list(a)
    return o


STRFN = {"startswith", "endswith", "lower", "upper", "strip", "split", "replace", "isdigit", "rsplit", "partition", "rpartition", "lstrip", "rstrip", "title", "capitalize", "count", "find",
         "rfind", "index", "rindex", "removeprefix", "removesuffix", "isalpha", "isalnum", "isnumeric", "isidentifier", "splitlines", "zfill", "casefold", "swapcase"}


class HeapHooks:
    """What calls out of the package mean to the object analyses."""
    may_raise = None

    def __init__(self):
        self.dumped = {}
        self.files = {}
        self.raise_at = None

    def getattr(self, it, base, name, e):
        if isinstance(base, Obj) and base.kind == "inst" and getattr(base, "opsmark", False):
            return mk("opsfn", name)
        return None

    def call(self, it, f, args, kw, e):
        if isinstance(f, Func) and f.module.name == "thinc.util":
            n = getattr(f.node, "name", "")
            if n == "partial":
                return Partial(args[0], args[1:], kw)
            if n in ("is_xp_array", "is_numpy_array", "is_cupy_array"):
                if isinstance(args[0], Obj) or is_const(args[0]):
                    return FALSE
                if n == "is_cupy_array":
                    return FALSE
                if is_array(args[0]):
                    return TRUE
                return FALSE if n == "is_xp_array" else None
            if n in ("assert_pytorch_installed", "assert_tensorflow_installed", "assert_mxnet_installed"):
                return NONE
        if isinstance(f, Func) and f.module.name == "thinc.backends" and f.node.name in ("get_ops", "get_array_ops"):
            return mk("call", f.node.name, tuple(it.freeze(a) for a in args), ())
        if isinstance(f, Term) and f.op == "opsfn":
            return it.opaque("ops." + f.args[0], args, kw, e)
        if isinstance(f, Term) and f.op == "ext":
            d = f.args[0]
            if d == "srsly.msgpack_dumps":
                t = it.opaque(d, args, kw, e)
                self.dumped[t] = it.deepcopy_shape(args[0])
                return t
            if d == "srsly.msgpack_loads" and args[0] in self.dumped:
                return it.deepcopy_shape(self.dumped[args[0]])
            if d == "pathlib.Path" and len(args) == 1:
                return args[0]
            if d.endswith("BytesIO"):
                o = Obj("inst", ("file",))
                o.data = args[0] if args else mk("sym", "empty")
                o.pos = const(0)
                return o
        if isinstance(f, Builtin) and f.name.startswith("file.") and f.recv is not None:
            return self.file_call(it, f.recv, f.name[5:], args, kw, e)
        if isinstance(f, Term) and f.op == "attr" and is_const(f.args[0]) and isinstance(cval(f.args[0]), str) and not kw \
                and f.args[1] in STRFN and all(is_const(_unwrap(a)) for a in args):
            try:
                r = getattr(cval(f.args[0]), f.args[1])(*[cval(_unwrap(a)) for a in args])
            except Exception:
                return None
            return L(*[const(x) for x in r]) if isinstance(r, list) else const(r)
        if isinstance(f, Term) and f.op == "attr" and isinstance(f.args[0], Term):
            if f.args[1] == "open":
                o = Obj("inst", ("file",))
                o.path = f.args[0]
                o.mode = cval(args[0]) if args and is_const(args[0]) else "?"
                if "w" in o.mode:
                    self.files[o.path] = mk("sym", "empty")
                o.data = self.files.get(o.path, mk("sym", "nofile"))
                it.event("open", e, path=o.path, mode=o.mode)
                return o
        return None

    def file_call(self, it, o, n, args, kw, e):
        if n == "write":
            if "b" in getattr(o, "mode", "b"):
                o.data = args[0]
            if hasattr(o, "path"):
                self.files[o.path] = o.data
            return NONE
        if n in ("read", "getvalue"):
            return o.data
        if n in ("seek", "close", "flush"):
            return NONE
        return None


PLAIN = {"asarray", "asarray_f", "asarray_i", "asarray1f", "asarray2f", "to_numpy", "ascontiguousarray", "as_contig", "astype", "get", "ravel", "reshape", "view"}
COPY = {"copy", "deepcopy", "array", "clone"}


def is_array(t):
    if not isinstance(t, Term):
        return False
    if t.op == "sym":
        return str(t.args[0]).startswith("arr:")
    if t.op in ("iop", "bin"):
        return any(is_array(a) for a in t.args[1:])
    return t.op == "call" and short(t.args[0]) in PLAIN | COPY and any(is_array(a) for a in t.args[1])


ARRAY_ATTRS = {"copy", "shape", "dtype", "ndim", "size", "astype", "ravel", "reshape", "flags", "T", "data", "sum", "__array__", "__len__", "any", "all",
               "max", "min", "mean", "tobytes", "fill", "tolist"}
BOX = {"list", "dict", "tuple", "set", "ArgsKwargs", "Ragged", "Padded", "Pairs"}
BYTES = {"msgpack_dumps", "to_bytes", "json_dumps", "getvalue", "read"}


def kind(t):
    if is_array(t):
        return "array"
    if isinstance(t, Term) and t.op == "call" and short(t.args[0]) in BYTES:
        return "bytes"
    if isinstance(t, Term) and (t.op == "sym" and t.meta == "distinct" or t.op == "call" and t.args[1] and short(t.args[0]) in ("copy", "deepcopy")
                                and isinstance(t.args[1][0], Term) and t.args[1][0].meta == "distinct"):
        return "scalar"
    return None


class WorldInterp(HeapInterp):
    def __init__(self, project, prefix=(), hooks=None):
        super().__init__(project, prefix, hooks)

    def is_instance(self, v, names):
        k = kind(v)
        names = set(names)
        if k == "bytes":
            return "bytes" in names
        if k == "array":
            if names & {"ndarray", "ArrayXd", "Array"}:
                return True
            return False
        if k == "scalar" and names <= BOX:
            return False
        return super().is_instance(v, names)

    def builtin(self, b, args, kw, e):
        if b.recv is None and b.name == "hasattr" and args and kind(args[0]) in ("array", "bytes") and is_const(args[1]):
            return const(cval(args[1]) in (ARRAY_ATTRS if kind(args[0]) == "array" else dir(bytes)))
        if b.recv is None and b.name == "hasattr" and isinstance(args[0], Term) and (args[0], f".{cval(args[1]) if is_const(args[1]) else '?'}") in self.globs:
            return TRUE
        if b.recv is None and b.name in ("list", "tuple") and args and kind(args[0]) == "bytes":
            return mk("call", b.name, (args[0],), ())
        return super().builtin(b, args, kw, e)

    def deepcopy_shape(self, v):
        """Copy of the containers; leaves (arrays, scalars) unchanged."""
        v = _unwrap(v)
        if isinstance(v, Obj) and v.kind in ("dict", "list"):
            c = Obj(v.kind, v.cls)
            c.items = [(k, self.deepcopy_shape(x)) for k, x in v.items] if v.kind == "dict" else [self.deepcopy_shape(x) for x in v.items]
            c.open = v.open
            return c
        if isinstance(v, Term) and v.op == "tuple":
            return L(*[self.deepcopy_shape(x) for x in v.args])
        return v

    def getattr(self, base, name, e):
        b = _unwrap(base)
        if isinstance(b, Obj) and b.kind == "inst" and b.cls and b.cls[0] == "file":
            if name == "name":
                return mk("sym", "filename")
            return Builtin("file." + name, b)
        return super().getattr(base, name, e)

    def enter(self, v, node):
        b = _unwrap(v)
        if isinstance(b, Obj) and b.kind == "inst" and b.cls and b.cls[0] == "file":
            return b
        return super().enter(v, node)

    def leave(self, v, node, exc):
        b = _unwrap(v)
        if isinstance(b, Obj) and b.kind == "inst" and b.cls and b.cls[0] == "file":
            return False
        return super().leave(v, node, exc)


class World:
    """One trace of public operations."""

    def __init__(self, it, t):
        self.it, self.t = it, t
        self.M = it.P.modules["thinc.model"]
        self.node = self.M.tree

    def model(self, name, **kw):
        kw.setdefault("ops", distinct("ops:" + name))
        c = Class(self.M, self.M.defs["Model"])
        return self.it.call(c, [const(name), distinct("fwd:" + name)], list(kw.items()), self.M.defs["Model"])

    def call(self, o, name, *args, **kw):
        return self.it.call(self.it.getattr(o, name, self.node), list(args), list(kw.items()), self.node)

    def get(self, o, name):
        return _unwrap(self.it.getattr(o, name, self.node))

    def func(self, mod, name, *args, **kw):
        m = self.it.P.modules[mod]
        r = self.it.P.resolve(mod, name)
        return self.it.call(self.it.from_res(r, m, name), list(args), list(kw.items()), self.node)

    def seq(self, v):
        return [_unwrap(x) for x in self.it.iterate(v, self.node)]

    def names(self, v):
        return [cval(x) for x in self.seq(v)]

    def walk(self, m, order=None):
        return self.seq(self.call(m, "walk", **({"order": const(order)} if order else {})))

    def true(self, v):
        return self.it.truth(v, self.node)

    def mapping(self, d):
        d = _unwrap(d)
        if isinstance(d, Obj) and d.kind == "dict":
            return {(cval(k) if is_const(k) else k): _unwrap(v) for k, v in d.items}
        return None

    # ---------------------------------------------------------------- state
    def state(self, m):
        """Observable state of one node through the public accessors."""
        s = {"name": self.get(m, "name"), "ops": self.get(m, "ops"), "id": self.get(m, "id")}
        for n in self.names(self.get(m, "dim_names")):
            s[f"dim {n}"] = self.call(m, "get_dim", const(n)) if self.call(m, "has_dim", const(n)) is TRUE else NONE
        for n in self.names(self.get(m, "param_names")):
            s[f"param {n}"] = self.call(m, "get_param", const(n)) if self.call(m, "has_param", const(n)) is TRUE else NONE
            s[f"grad {n}"] = self.call(m, "get_grad", const(n)) if self.call(m, "has_grad", const(n)) is TRUE else NONE
        for n in self.names(self.get(m, "ref_names")):
            s[f"ref {n}"] = self.call(m, "get_ref", const(n)) if self.call(m, "has_ref", const(n)) is TRUE else NONE
        for k, v in (self.mapping(self.get(m, "attrs")) or {}).items():
            s[f"attr {k}"] = v
        for i, x in enumerate(self.seq(self.get(m, "layers"))):
            s[f"layer {i}"] = x
        for i, x in enumerate(self.seq(self.get(m, "shims"))):
            s[f"shim {i}"] = x
        s["forward"] = self.get(m, "_func")
        s["init"] = self.get(m, "init")
        return s

    def deep(self, m):
        return {n.id: self.state(n) for n in self.walk(m)}


def strip(v):
    """(value, copied): the value a term is a plain copy or conversion of."""
    copied = False
    while True:
        v = _unwrap(v)
        if isinstance(v, Term) and v.op == "call" and v.args[1]:
            s = short(v.args[0])
            if s in COPY or s in PLAIN:
                args = [a for a in v.args[1] if is_array(a)] or [v.args[1][0]]
                if s in COPY:
                    copied = True
                v = args[0]
                continue
            if s == "msgpack_loads" and isinstance(v.args[1][0], Term) and v.args[1][0].op == "call" and short(v.args[1][0].args[0]) == "msgpack_dumps":
                v = v.args[1][0].args[1][0]
                copied = True
                continue
        return v, copied


def same(a, b):
    a, b = _unwrap(a), _unwrap(b)
    if a is b:
        return True
    if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind and a.kind in ("list", "dict"):
        if a.kind == "list":
            return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
        ka, kb = {k: v for k, v in a.items}, {k: v for k, v in b.items}
        return set(ka) == set(kb) and all(same(ka[k], kb[k]) for k in ka)
    x, y = strip(a)[0], strip(b)[0]
    if x is y:
        return True
    if isinstance(x, Term) and isinstance(y, Obj) and y.kind in ("list", "dict"):
        return x.op == y.kind and len(x.args) == len(y.items)
    return False


class WScenario(Scenario):
    def paths(self, body):
        from .interp import explore

        def run(prefix):
            it = getattr(self.hooks, "interp", WorldInterp)(self.P, prefix, self.hooks() if self.hooks else HeapHooks())
            t = Trace(it)
            try:
                body(World(it, t), t)
            except Stop as s:
                t.stopped = s
            except Budget:
                t.failed = "budget"
            except RecursionError:
                t.failed = "recursion"
            finally:
                it.close()
            return t
        return list(explore(run, self.limit))
