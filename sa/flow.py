"""Value-flow queries over the terms of a trace: value dependence and aliasing."""
import re

from .interp import Term, Obj, NONE, is_const, cval, mk, const, _unwrap

# Attributes that describe the layout of a value, not its contents.
META_ATTRS = {"shape", "ndim", "size", "dtype", "itemsize", "nbytes", "flags", "strides", "device", "device_type",
              "device_id", "lengths", "indices", "size_at_t", "starts_ends", "name", "id", "data_shape", "xp",
              "_cumsums"}
# Calls whose result carries no values of their arguments.
META_CALLS = {"len", "range", "isinstance", "hasattr", "type", "id", "callable", "print", "get_width",
              "thinc.util.get_width", ".fill_shape"}
ALLOCS = {"alloc", "alloc1f", "alloc2f", "alloc3f", "alloc4f", "alloc_f", "alloc1i", "alloc2i", "alloc3i", "alloc4i",
          "alloc_i", "zeros", "empty", "ones", "full", "zeros_like", "empty_like", "ones_like", "full_like", "arange",
          "get_dropout_mask"}
# xp functions / array methods whose result may share memory with the first argument.
VIEWS = {"reshape", "reshape1f", "reshape2f", "reshape3f", "reshape4f", "reshape_f", "reshape1i", "reshape2i", "reshape3i",
         "reshape4i", "reshape_i", "ravel", "view", "transpose", "squeeze", "expand_dims", "swapaxes", "broadcast_to",
         "asarray", "asarray1f", "asarray2f", "asarray3f", "asarray4f", "asarray_f", "asarray1i", "asarray2i", "asarray3i",
         "asarray4i", "asarray_i", "as_contig", "ascontiguousarray", "split", "atleast_1d", "atleast_2d", "atleast_3d", "moveaxis",
         "rollaxis", "array_split", "hsplit", "vsplit", "unflatten", "flip", "to_numpy", "asanyarray", "require",
         "__getitem__", "get", "values", "items", "pop", "setdefault", "enter", "iter", "next", "reversed", "list",
         "tuple", "zip", "swapaxes", "diagonal", "real", "T"}
# functions that write to their first argument
WRITES = {"copyto": 0, "put": 0, "place": 0, "putmask": 0, "fill": 0, "fill_diagonal": 0, "add.at": 0, "subtract.at": 0,
          "multiply.at": 0, "maximum.at": 0, "scatter_add": 0, "sort": 0, "partition": 0, "resize": 0, "itemset": 0,
          "setfield": 0, "byteswap": 0, "setflags": None, "shuffle": 0}
VALUE_FREE_ARGS = {  # ops call -> indices of arguments that only select or shape
    "unflatten": (1,), "backprop_reduce_sum": (1,), "backprop_reduce_mean": (1,), "reduce_sum": (1,), "reduce_mean": (1,),
    "reduce_max": (1,), "backprop_reduce_max": (1, 2), "reduce_first": (1,), "reduce_last": (1,),
    "backprop_reduce_first": (1,), "backprop_reduce_last": (1,), "seq2col": (), "pad": (), "split": (1,),
    "scatter_add": (1,), "add.at": (1,), "backprop_maxout": (1, 2), "gather_add": (1,),
    "mask": (), "reshape": (1, 2, 3, 4), "reshape1f": (1, 2, 3), "reshape2f": (1, 2, 3), "reshape3f": (1, 2, 3), "reshape4f": (1, 2, 3, 4),
    "reshape_f": (1,), "reshape1i": (1,), "reshape2i": (1, 2), "reshape3i": (1, 2, 3), "transpose": (1,),
}


INTCALL = re.compile(r"(asarray|alloc)_?\di$|asarray_i$|hash$")
INTTYPES = {"i", "int", "int32", "int64", "uint64", "uint32", "i4", "i8", "u8", "bool", "uint8"}


def short(name):
    if isinstance(name, Term):
        if name.op == "attr":
            return str(name.args[1])
        if name.op in ("ext",):
            return str(name.args[0]).split(".")[-1]
        return str(name.args[0]) if name.args else ""
    n = str(name)
    for p in ("ops.", "xp."):
        if n.startswith(p):
            n = n[len(p):]
            # xp.add.at, xp.random.uniform
            return n
    n = n.lstrip(".")
    return n.split(".")[-1] if not n.endswith(".at") else ".".join(n.split(".")[-2:])


class Flow:
    """Dependence and alias queries for one trace."""

    def __init__(self, trace):
        self.trace = trace
        self.stores = {}        # root -> [value]
        self._deps = {}
        self._roots = {}
        for ev in trace.events:
            if ev.kind == "mutate":
                tgt = ev.data["target"]
                v = ev.data.get("value")
                if v is None or not isinstance(tgt, Term):
                    continue
                for r in self.roots(tgt):
                    self.stores.setdefault(r, []).append(trace.freeze(v))

    # -- dependence ---------------------------------------------------------
    def deps(self, t, cut=None):
        """The set of leaves whose values flow into t."""
        if not isinstance(t, Term):
            t = self.trace.freeze(t)
        out = set()
        seen = set()
        todo = [t]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo += list(x)
                continue
            if not isinstance(x, Term) or x in seen:
                continue
            seen.add(x)
            op = x.op
            for v in self.stores.get(x, ()):
                todo.append(v)
            if cut is not None and cut(x):
                continue
            if op in ("const", "cmp", "isinst", "hasattr", "not", "index", "dim", "class", "model", "ext", "ops", "xp"):
                continue
            if op in ("sym", "childout", "childcb", "cbout", "param", "unknown", "modelattr", "glob"):
                out.add(x)
                if op in ("sym", "childout", "cbout", "param", "modelattr", "glob", "unknown"):
                    continue
                continue
            if op == "attr":
                if x.args[1] in META_ATTRS:
                    continue
                todo.append(x.args[0])
                continue
            if op == "sub":
                todo.append(x.args[0])
                continue
            if op == "pyobj":
                todo.append(self.trace.freeze(x.args[0].v))
                continue
            if op == "inst":
                for f in x.args[1:]:
                    nm = cval(f.args[0])
                    if nm in META_ATTRS:
                        continue
                    todo.append(_unwrap(f.args[1]) if not isinstance(_unwrap(f.args[1]), Obj) else self.trace.freeze(_unwrap(f.args[1])))
                continue
            if op == "call":
                s = short(x.args[0])
                if INTCALL.match(s) or (s in ("asarray", "as_contig", "ascontiguousarray", "array", "astype", "asarray_i")
                                        and self.int_dtype(x)):
                    continue
                if s == "get" and len(x.args[1]) == 3:
                    todo += [x.args[1][0], x.args[1][2]]
                    continue
                if s in META_CALLS or s in ALLOCS:
                    if s in ("full", "full_like") and len(x.args[1]) > 1:
                        todo.append(x.args[1][1])
                    continue
                if isinstance(x.args[0], Term):
                    todo.append(x.args[0])
                skip = VALUE_FREE_ARGS.get(s, ())
                for i, a in enumerate(x.args[1]):
                    if i in skip:
                        continue
                    todo.append(a)
                for k, a in x.args[2]:
                    if k in ("lengths", "axis", "shape", "dtype", "pad", "trans1", "trans2", "inplace", "out"):
                        if k != "out":
                            continue
                    todo.append(a)
                continue
            if op == "funcref":
                if x.args[1] is not None:
                    todo.append(x.args[1])
                continue
            if op == "partial":
                todo += [x.args[0]] + list(x.args[1]) + [v for _, v in x.args[2]]
                continue
            todo += [a for a in x.args if isinstance(a, (Term, tuple))]
        return out

    def int_dtype(self, x):
        for k, v in x.args[2]:
            if k == "dtype":
                if is_const(v):
                    return str(cval(v)) in INTTYPES
                if v.op == "ext":
                    return str(v.args[0]).split(".")[-1] in INTTYPES
        if short(x.args[0]) == "astype" and len(x.args[1]) > 1 and is_const(x.args[1][1]):
            return str(cval(x.args[1][1])) in INTTYPES
        return False

    # -- aliasing ---------------------------------------------------------------
    def roots(self, t):
        """The values whose memory t may share."""
        if not isinstance(t, Term):
            t = self.trace.freeze(t)
        r = self._roots.get(t)
        if r is not None:
            return r
        self._roots[t] = {t}
        r = self._roots_of(t)
        self._roots[t] = r
        return r

    def _roots_of(self, t):
        op = t.op
        if op == "sub":
            if self.is_view_index(t.args[1]):
                return self.roots(t.args[0])
            return {t}
        if op == "attr":
            if t.args[1] in ("shape", "ndim", "size", "dtype"):
                return {t}
            return self.roots(t.args[0])
        if op == "iop":
            return self.roots(t.args[1])
        if op == "ccast":
            return self.roots(t.args[1])
        if op in ("ptradd", "addr"):
            return self.roots(t.args[0])
        if op == "bin" and t.args[0] == "Add" and self.is_pointer(t.args[1]):
            return self.roots(t.args[1])
        if op == "enter":
            return {t}
        if op in ("tuple", "list"):
            out = set()
            for a in t.args:
                a = _unwrap(a)
                out |= self.roots(a if isinstance(a, Term) else self.trace.freeze(a))
            return out
        if op == "inst":
            out = set()
            for f in t.args[1:]:
                a = _unwrap(f.args[1])
                out |= self.roots(a if isinstance(a, Term) else self.trace.freeze(a))
            return out or {t}
        if op == "call":
            s = short(t.args[0])
            args = t.args[1]
            if s in VIEWS and args:
                a0 = args[0]
                return self.roots(a0)
            summ = getattr(self.trace, "ops_alias", None)
            if summ and isinstance(t.args[0], str) and t.args[0].startswith("ops."):
                out = set()
                for a in summ(s, args, dict(t.args[2])):
                    out |= self.roots(a)
                if out:
                    return out
            kw = dict(t.args[2])
            if "out" in kw and kw["out"] is not NONE:
                return self.roots(kw["out"])
        return {t}

    def is_pointer(self, t):
        while isinstance(t, Term):
            if t.op in ("ccast",):
                return str(t.args[0]).strip().endswith("*")
            if t.op in ("ptradd", "addr"):
                return True
            return False
        return False

    def is_view_index(self, i):
        if isinstance(i, Term):
            if i.op == "slice":
                return True
            if i.op == "const":
                return not isinstance(cval(i), bool)
            if i.op in ("index", "dim", "bin", "fstr"):
                return i.op != "bin" or all(self.is_scalarish(a) for a in i.args[1:])
            if i.op == "tuple":
                return all(self.is_view_index(a) for a in i.args)
            if i.op == "ext":
                return "newaxis" in str(i.args[0])
            if i.op in ("sub", "sym", "attr", "call"):
                # An index taken from a sequence: unknown.  A copy for arrays of
                # indices; an element for scalars.
                return self.is_scalarish(i)
        return False

    def is_scalarish(self, v):
        if not isinstance(v, Term):
            return False
        if v.op in ("const", "index", "dim", "fstr"):
            return True
        if v.op in ("bin", "un", "iop"):
            return all(self.is_scalarish(a) for a in v.args[1:])
        if v.op == "call":
            return short(v.args[0]) in ("len", "int", "min", "max")
        if v.op == "sub":
            b = v.args[0]
            return isinstance(b, Term) and ((b.op == "attr" and b.args[1] == "shape"))
        return False
