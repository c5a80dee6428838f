"""Arrays of provenance cells, their element types and layout, and the array
library calls the backends make on them."""
import operator
from fractions import Fraction

import numpy as np

from .cellval import A, NUM, P, PyErr, UNINIT, Unsup, Viol, evalm, fun, num, sym, val

CANON = {"f": "float32", "d": "float64", "i": "int32", "float": "float64", "int": "int64", "bool": "bool", "?": "bool", "f4": "float32", "f8": "float64", "i4": "int32",
         "i8": "int64", "uint": "uint64", "I": "uint32", "l": "int64", "L": "uint64", "single": "float32", "double": "float64", "float_": "float64", "u4": "uint32", "u8": "uint64",
         "<f4": "float32", "<i4": "int32", "intc": "int32", "q": "int64", "Q": "uint64", "B": "uint8", "b": "int8"}
SIZE = {"float32": 4, "float64": 8, "int32": 4, "int64": 8, "uint32": 4, "uint64": 8, "bool": 1, "uint8": 1, "int8": 1, "int16": 2, "uint16": 2, "float16": 2}


class DT(str):
    def __new__(cls, s):
        if isinstance(s, DT):
            return s
        if s is float:
            s = "float64"
        elif s is int:
            s = "int64"
        elif s is bool:
            s = "bool"
        if not isinstance(s, str):
            raise Unsup(f"dtype {s!r}")
        c = CANON.get(s, s)
        if c not in SIZE:
            raise PyErr("TypeError", f"data type {s!r} not understood")
        return str.__new__(cls, c)

    def __eq__(self, o):
        if o is None:
            return False
        try:
            return str.__eq__(self, DT(o))
        except (Unsup, PyErr):
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return str.__hash__(self)

    @property
    def kind(self):
        return {"f": "f", "i": "i", "u": "u", "b": "b"}[self[0]]

    @property
    def itemsize(self):
        return SIZE[str(self)]

    @property
    def name(self):
        return str(self)

    @property
    def isfloat(self):
        return self.startswith("float")

    def newbyteorder(self, *a):
        return self


def obj(shape, fill):
    a = np.empty(shape, dtype=object)
    a[...] = fill
    return a


def cells(x):
    """Nested data as an object array."""
    if isinstance(x, Arr):
        return x.d
    if isinstance(x, np.ndarray):
        return x
    if isinstance(x, (list, tuple, range)):
        xs = [cells(v) for v in x]
        if any(isinstance(v, np.ndarray) and v.ndim for v in xs) or any(isinstance(v, (Arr, list, tuple)) for v in x):
            shapes = {np.shape(v) for v in xs}
            if len(shapes) > 1:
                raise PyErr("ValueError", "inhomogeneous shape")
            r = np.empty((len(xs),) + shapes.pop(), dtype=object)
            for i, v in enumerate(xs):
                r[i] = v
            return r
        r = np.empty((len(xs),), dtype=object)
        for i, v in enumerate(xs):
            r[i] = v.item() if isinstance(v, np.ndarray) else v
        return r
    return np.array(x, dtype=object) if not isinstance(x, P) else obj((), x)


def conv(d, dt):
    """Cells stored into an array of element type dt."""
    dt = DT(dt)
    if dt.isfloat:
        def f(x):
            return x if isinstance(x, P) or x is UNINIT or (isinstance(x, float) and (x != x or x in (float("inf"), float("-inf")))) else num(x)
    elif dt == "bool":
        def f(x):
            return x if x is UNINIT else bool(x)
    else:
        bits = 8 * dt.itemsize

        def f(x):
            if x is UNINIT or isinstance(x, (Opaque, Ptr)):
                return x
            if isinstance(x, P):
                raise Unsup("a real value is stored in an integer array")
            n = int(x)
            if dt.kind == "u":
                return n % (1 << bits)
            if not -(1 << (bits - 1)) <= n < 1 << (bits - 1):
                return (n + (1 << (bits - 1))) % (1 << bits) - (1 << (bits - 1))
            return n
    out = np.empty(d.shape, dtype=object)
    o, s = out.reshape(-1), d.reshape(-1)
    for i in range(s.size):
        o[i] = f(s[i])
    return out


class Opaque:
    """A value the analysis carries around without looking into it."""

    def __init__(self, what, *parts):
        self.what = what
        self.parts = parts

    def __repr__(self):
        return f"<{self.what} {self.parts}>"

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.what == o.what and len(self.parts) == len(o.parts) and all(same(a, b) for a, b in zip(self.parts, o.parts))

    def __hash__(self):
        return hash(self.what)


def same(a, b):
    return a is b or (type(a) == type(b) and a == b)


class Hooks:
    """Reads and writes are reported here while a kernel launch is simulated."""
    def __init__(self):
        self.thread = None
        self.reads = {}
        self.writes = {}
        self.atomic = set()


H = Hooks()


def uf(f, n):
    return np.frompyfunc(f, n, 1)


def guard(f):
    def g(*a):
        for x in a:
            if x is UNINIT:
                x._bad()
        return f(*a)
    return g


U = {k: uf(guard(v), 2) for k, v in {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "lt": operator.lt, "le": operator.le, "gt": operator.gt,
                                   "ge": operator.ge, "eq": operator.eq, "ne": operator.ne, "mod": operator.mod, "floordiv": operator.floordiv,
                                   "and": operator.and_, "or": operator.or_, "xor": operator.xor}.items()}


def _div(a, b):
    if isinstance(b, P) or isinstance(a, P):
        if not isinstance(b, P) and b == 0:
            return float("nan")
        return a / b
    if b == 0:
        return float("nan") if a == 0 else float("inf")
    return num(a) / num(b)


def _pow(a, b):
    if isinstance(a, P) or isinstance(b, P):
        return a ** b if isinstance(a, P) else b.__rpow__(a)
    if num(b).denominator == 1:
        return num(a) ** int(b)
    return fun("pow", a, b)


U["div"] = uf(guard(_div), 2)
U["pow"] = uf(guard(_pow), 2)
U["max"] = uf(guard(lambda a, b: a if a >= b else b), 2)
U["min"] = uf(guard(lambda a, b: a if a <= b else b), 2)
CMPS = {"lt", "le", "gt", "ge", "eq", "ne"}


class Arr:
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, d, dtype, dev="np"):
        self.d = d
        self.dtype = DT(dtype)
        self.dev = dev

    # -- description
    shape = property(lambda s: tuple(int(x) for x in s.d.shape))
    ndim = property(lambda s: s.d.ndim)
    size = property(lambda s: int(s.d.size))
    itemsize = property(lambda s: s.dtype.itemsize)
    nbytes = property(lambda s: s.size * s.dtype.itemsize)
    contig = property(lambda s: bool(s.d.flags.c_contiguous))

    @property
    def strides(self):
        return tuple(int(x) // 8 * self.dtype.itemsize for x in self.d.strides)

    @property
    def T(self):
        return self.like(self.d.T)

    @property
    def flags(self):
        return Flags(self)

    @property
    def data(self):
        return DataRef(self)

    def like(self, d, dtype=None):
        if not isinstance(d, np.ndarray):
            return d
        return Arr(d, dtype or self.dtype, self.dev)

    def __repr__(self):
        return f"array{self.shape}:{self.dtype}"

    def __len__(self):
        if not self.d.ndim:
            raise PyErr("TypeError", "len() of unsized object")
        return len(self.d)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if self.size != 1:
            raise PyErr("ValueError", "truth value of an array is ambiguous")
        return bool(self.d.reshape(-1)[0])

    def __int__(self):
        return self.__index__()

    def __index__(self):
        v = self.item()
        if isinstance(v, P):
            raise Unsup("a symbolic value is turned into an integer")
        return int(v)

    def __float__(self):
        raise Unsup("an array is turned into a plain number")

    def __hash__(self):
        raise PyErr("TypeError", "unhashable type: 'numpy.ndarray'")

    # -- indexing
    def idx(self, i):
        if isinstance(i, tuple):
            return tuple(self.idx(x) for x in i)
        if isinstance(i, Arr):
            if self.dev == "np":            # CuPy takes positions from the host
                self.samedev(i)
            if i.dtype == "bool":
                return i.d.astype(bool)
            if i.dtype.isfloat:
                raise PyErr("IndexError", "arrays used as indices must be of integer type")
            for x in i.d.reshape(-1):
                if x is UNINIT:
                    x._bad()
            return i.d.astype(np.int64)
        if isinstance(i, list):
            return [self.idx(x) for x in i]
        if isinstance(i, slice):
            return slice(*[None if x is None else self.idx(x) for x in (i.start, i.stop, i.step)])
        if isinstance(i, (Fraction, float)):
            raise PyErr("IndexError", "only integers are valid indices")
        if i is UNINIT:
            i._bad()
        if isinstance(i, P):
            raise Unsup("symbolic index")
        return i

    def __getitem__(self, i):
        try:
            r = self.d[self.idx(i)]
        except IndexError as e:
            raise PyErr("IndexError", str(e))
        return self.like(r)

    def __setitem__(self, i, v):
        vd = v.d if isinstance(v, Arr) else cells(v)
        if isinstance(v, Arr):
            self.samedev(v)
        vd = conv(vd, self.dtype)
        try:
            self.d[self.idx(i)] = vd if vd.ndim else vd.item()
        except IndexError as e:
            raise PyErr("IndexError", str(e))
        except ValueError as e:
            raise PyErr("ValueError", str(e))

    def samedev(self, o):
        if isinstance(o, Arr) and o.dev != self.dev and o.d.ndim:
            raise PyErr("TypeError", "an array of the host is mixed with one of the device")

    # -- arithmetic
    def rtype(self, op, o):
        if op in CMPS:
            return DT("bool")
        if isinstance(o, Arr):
            ts = [self, o]
            if o.d.ndim == 0 or self.d.ndim == 0:
                ts = [x for x in ts if x.d.ndim] or ts
            t = np.result_type(*[np.dtype(str(x.dtype)) for x in ts])
        elif isinstance(o, bool) or (isinstance(o, int)):
            t = np.dtype(str(self.dtype)) if self.dtype != "bool" or op in ("and", "or", "xor") else np.dtype("int64")
        else:
            t = np.dtype(str(self.dtype)) if self.dtype.isfloat else np.dtype("float64")
        t = DT(str(t))
        if op == "div" and not t.isfloat:
            t = DT("float64")
        return t

    def bin(self, op, o, rev=False, out=None):
        if isinstance(o, (list, tuple)):
            o = Arr(cells(o), "int64", self.dev)
        if not isinstance(o, (Arr, P, bool) + NUM) and o is not UNINIT:
            if op in ("eq", "ne"):
                return op == "ne"
            return NotImplemented
        if isinstance(o, Arr):
            self.samedev(o)
        t = self.rtype(op, o)
        od = o.d if isinstance(o, Arr) else o
        a, b = (od, self.d) if rev else (self.d, od)
        if not isinstance(o, Arr):
            s = obj((), o)
            a, b = (s, self.d) if rev else (self.d, s)
        try:
            r = U[op](a, b)
        except ValueError as e:
            raise PyErr("ValueError", str(e))
        if not isinstance(r, np.ndarray):
            r = obj((), r)
        if out is not None:
            if r.shape != out.d.shape:
                raise PyErr("ValueError", "non-broadcastable output operand")
            if t.isfloat and not out.dtype.isfloat:
                raise PyErr("TypeError", f"Cannot cast output from {t} to {out.dtype}")
            out.d[...] = conv(r, out.dtype)
            return out
        return Arr(r, t, self.dev)

    def cmp_(self, op, o): return self.bin(op, o)
    def __add__(self, o): return self.bin("add", o)
    def __radd__(self, o): return self.bin("add", o, True)
    def __sub__(self, o): return self.bin("sub", o)
    def __rsub__(self, o): return self.bin("sub", o, True)
    def __mul__(self, o): return self.bin("mul", o)
    def __rmul__(self, o): return self.bin("mul", o, True)
    def __truediv__(self, o): return self.bin("div", o)
    def __rtruediv__(self, o): return self.bin("div", o, True)
    def __floordiv__(self, o): return self.bin("floordiv", o)
    def __mod__(self, o): return self.bin("mod", o)
    def __rmod__(self, o): return self.bin("mod", o, True)
    def __pow__(self, o): return self.bin("pow", o)
    def __rpow__(self, o): return self.bin("pow", o, True)
    def __and__(self, o): return self.bin("and", o)
    def __or__(self, o): return self.bin("or", o)
    def __xor__(self, o): return self.bin("xor", o)
    def __iadd__(self, o): return self.bin("add", o, out=self)
    def __isub__(self, o): return self.bin("sub", o, out=self)
    def __imul__(self, o): return self.bin("mul", o, out=self)
    def __itruediv__(self, o): return self.bin("div", o, out=self)
    def __lt__(self, o): return self.bin("lt", o)
    def __le__(self, o): return self.bin("le", o)
    def __gt__(self, o): return self.bin("gt", o)
    def __ge__(self, o): return self.bin("ge", o)
    def __eq__(self, o): return self.bin("eq", o)
    def __ne__(self, o): return self.bin("ne", o)
    def __neg__(self): return self.bin("mul", -1)
    def __invert__(self): return Arr(uf(lambda x: not x, 1)(self.d), "bool", self.dev)
    def __matmul__(self, o): return dot(self, o)

    # -- methods of the library's arrays
    def item(self, *a):
        if a:
            return self.d.reshape(-1)[a[0]]
        if self.size != 1:
            raise PyErr("ValueError", "can only convert an array of size 1")
        return self.d.reshape(-1)[0]

    def tolist(self):
        return self.d.tolist()

    def get(self, *a, **k):
        if self.dev != "cp":
            raise PyErr("AttributeError", "get")
        return Arr(self.d.copy(), self.dtype, "np")

    def reshape(self, *sh, **kw):
        if kw.get("order", "C") != "C":
            raise Unsup("reshape order")
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)):
            sh = sh[0]
        try:
            return self.like(self.d.reshape(tuple(int(x) for x in sh)))
        except ValueError as e:
            raise PyErr("ValueError", str(e))

    def transpose(self, *ax):
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)):
            ax = ax[0]
        try:
            return self.like(self.d.transpose(tuple(int(a) for a in ax)) if ax else self.d.T)
        except ValueError as e:
            raise PyErr("ValueError", str(e))

    def swapaxes(self, a, b): return self.like(self.d.swapaxes(a, b))
    def ravel(self, *a): return self.like(self.d.reshape(-1))
    def flatten(self, *a): return self.like(self.d.reshape(-1).copy())
    def squeeze(self, *a, **k): return self.like(self.d.squeeze(*a, **k))
    def copy(self, *a, **k): return self.like(np.ascontiguousarray(self.d).copy().reshape(self.d.shape))

    def fill(self, v):
        self.d[...] = conv(cells(v), self.dtype).item()

    def astype(self, dtype=None, *a, copy=True, **k):
        dt = DT(dtype)
        if dt == self.dtype and not copy:
            return self
        return Arr(conv(self.d, dt), dt, self.dev)

    def view(self, *a):
        if a and not (isinstance(a[0], (str,)) and DT(a[0]) == self.dtype):
            raise Unsup("array view with another element type")
        return self.like(self.d)

    def red(self, name, axis=None, keepdims=False, dtype=None, out=None, initial=None):
        if initial is not None:
            if name not in ("max", "min", "sum") or axis is not None or keepdims:
                raise Unsup("initial value")
            d = np.empty(self.size + 1, object)
            d[:-1] = self.d.reshape(-1)
            d[-1] = conv(cells(initial), self.dtype).item()
            return Arr(d, self.dtype, self.dev).red(name)
        for x in self.d.reshape(-1):
            if x is UNINIT:
                x._bad()
        if isinstance(axis, (list,)):
            axis = tuple(axis)
        f = {"sum": np.add.reduce, "max": None, "min": None}.get(name)
        try:
            if name == "sum":
                r = self.d.sum(axis=axis, keepdims=keepdims)
                t = self.dtype if self.dtype.isfloat else DT("int64")
                if not isinstance(r, np.ndarray) and not isinstance(r, P) and self.dtype.isfloat:
                    r = num(r)
            elif name == "mean":
                n = self.size if axis is None else self.shape[axis]
                if n == 0:
                    raise Unsup("mean of an empty axis")
                r = self.d.sum(axis=axis, keepdims=keepdims)
                r = uf(lambda x: x / Fraction(n) if isinstance(x, P) else num(x) / n, 1)(r)
                t = self.dtype if self.dtype.isfloat else DT("float64")
            elif name in ("max", "min"):
                if axis is not None and self.shape[axis] == 0 or axis is None and not self.size:
                    raise PyErr("ValueError", "zero-size array to reduction operation has no identity")
                r = (U[name].reduce(self.d, axis=axis, keepdims=keepdims)) if axis is not None else U[name].reduce(self.d.reshape(-1))
                t = self.dtype
            elif name in ("argmax", "argmin"):
                if axis is None:
                    fl = list(self.d.reshape(-1))
                    return _arg(fl, name)
                if self.shape[axis] == 0:
                    raise PyErr("ValueError", "attempt to get argmax of an empty sequence")
                m = np.moveaxis(self.d, axis, -1)
                r = np.empty(m.shape[:-1], dtype=object)
                for ix in np.ndindex(m.shape[:-1]):
                    r[ix] = _arg(list(m[ix]), name)
                t = DT("int64")
                if keepdims:
                    r = np.expand_dims(r, axis)
            elif name in ("all", "any"):
                fn = all if name == "all" else any
                if axis is None:
                    return fn(bool(x) for x in self.d.reshape(-1))
                m = np.moveaxis(self.d, axis, -1)
                r = np.empty(m.shape[:-1], dtype=object)
                for ix in np.ndindex(m.shape[:-1]):
                    r[ix] = fn(bool(x) for x in m[ix])
                t = DT("bool")
            elif name == "prod":
                r = self.d.prod(axis=axis, keepdims=keepdims)
                t = self.dtype if self.dtype.isfloat else DT("int64")
            else:
                raise Unsup(f"array method {name}")
        except np.exceptions.AxisError as e:
            raise PyErr("ValueError", str(e))
        if dtype is not None:
            t = DT(dtype)
        if isinstance(r, np.ndarray):
            r = Arr(r, t, self.dev)
            if out is not None:
                out.d[...] = r.d
                return out
        return r

    def cumsum(self, axis=None, dtype=None, out=None):
        s, r = 0, []
        if self.ndim != 1:
            raise Unsup("cumsum of a matrix")
        for x in self.d:
            if x is UNINIT:
                x._bad()
            s = s + x
            r.append(s)
        res = Arr(cells(r) if r else obj((0,), 0), dtype or (self.dtype if self.dtype.isfloat else "int64"), self.dev)
        if out is None:
            return res
        if out.d.shape != res.d.shape:
            raise PyErr("ValueError", "provided out is the wrong size for the accumulation")
        out[...] = res.astype(out.dtype)
        return out

    def dot(self, o): return dot(self, o)
    def clip(self, lo, hi): return clip(self, lo, hi)
    def repeat(self, n, axis=None): return repeat(self, n, axis)

    def sort(self, *a):
        self.d.sort(*a)


for _n in ("sum", "mean", "max", "min", "argmax", "argmin", "all", "any", "prod"):
    def _mk(n):
        def m(self, axis=None, *a, **k):
            return self.red(n, axis, *a, **k)
        return m
    setattr(Arr, _n, _mk(_n))


def _arg(fl, name):
    b = 0
    for i in range(1, len(fl)):
        if (val(fl[i]) > val(fl[b])) if name == "argmax" else (val(fl[i]) < val(fl[b])):
            b = i
    return b


class Flags:
    def __init__(self, a):
        self.a = a

    @property
    def c_contiguous(self):
        return self.a.contig
    contiguous = c_contiguous

    @property
    def f_contiguous(self):
        return bool(self.a.d.flags.f_contiguous)
    writeable = True
    owndata = property(lambda s: s.a.d.base is None)

    def __getitem__(self, k):
        return {"C_CONTIGUOUS": self.c_contiguous, "C": self.c_contiguous, "F_CONTIGUOUS": self.f_contiguous, "WRITEABLE": True, "OWNDATA": self.owndata}[k]


class DataRef:
    """array.data: the address of the first element."""

    def __init__(self, a):
        self.a = a

    @property
    def ptr(self):
        return pointer(self.a)


CTYPES = {"float": "float32", "double": "float64", "int": "int32", "int32_t": "int32", "uint32_t": "uint32", "unsigned int": "uint32", "uint64_t": "uint64",
          "int64_t": "int64", "long": "int64", "long long": "int64", "unsigned long": "uint64", "np.float32_t": "float32", "np.float64_t": "float64", "size_t": "uint64",
          "unsigned long long": "uint64", "char": "int8", "uint8_t": "uint8", "bint": "int32", "bool": "bool", "long int": "int64", "np.int32_t": "int32", "Py_ssize_t": "int64",
          "attr_t": "uint64", "hash_t": "uint64", "key_t": "uint64", "short": "int16", "unsigned": "uint32", "weight_t": "float32", "np.uint64_t": "uint64", "np.int64_t": "int64"}


def pointer(a, dt=None, what="the data of the array"):
    if not a.contig:
        raise Viol(f"{what} is walked as one block, but the array is not contiguous here")
    if dt is not None and dt != a.dtype:
        raise Viol(f"{what} is read as {dt}, but the array holds {a.dtype} here")
    return Ptr(a.d.reshape(-1), 0, a.dtype)


class Ptr:
    __slots__ = ("b", "o", "t", "base")

    def __init__(self, b, o, t, base=None):
        self.b, self.o, self.t = b, o, t

    def at(self, i, k):
        if isinstance(i, P):
            raise Unsup("symbolic offset")
        if i is UNINIT:
            i._bad()
        j = self.o + int(i)
        if not 0 <= j < self.b.size:
            raise Viol(f"{k} element {j} of a buffer of {self.b.size}")
        return j

    def __getitem__(self, i):
        j = self.at(i, "reads")
        if H.thread is not None:
            H.reads.setdefault(id0(self.b) + 8 * j, set()).add(H.thread)
        return self.b[j]

    def __setitem__(self, i, v):
        j = self.at(i, "writes")
        if H.thread is not None:
            H.writes.setdefault(id0(self.b) + 8 * j, set()).add(H.thread)
        if v is UNINIT:
            v._bad()
        self.b[j] = cell(v, self.t)

    def __add__(self, n):
        return Ptr(self.b, self.o + int(n), self.t)
    __radd__ = __add__

    def __sub__(self, n):
        if isinstance(n, Ptr):
            return self.o - n.o
        return Ptr(self.b, self.o - int(n), self.t)

    def _c(self, o):
        if not isinstance(o, Ptr) or id0(o.b) != id0(self.b):
            raise Viol("pointers into different buffers are compared")
        return o.o

    def __lt__(self, o): return self.o < self._c(o)
    def __le__(self, o): return self.o <= self._c(o)
    def __gt__(self, o): return self.o > self._c(o)
    def __ge__(self, o): return self.o >= self._c(o)
    def __eq__(self, o): return isinstance(o, Ptr) and id0(o.b) == id0(self.b) and o.o == self.o
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash((id0(self.b), self.o))
    def __bool__(self): return True

    def __repr__(self):
        return f"<{self.t}* +{self.o}/{self.b.size}>"


def id0(b):
    return b.__array_interface__["data"][0] if b.size else id(b)


def cell(v, t):
    if isinstance(t, DT):
        if t.isfloat:
            return v if isinstance(v, P) or (isinstance(v, float) and (v != v or v in (float("inf"), float("-inf")))) or isinstance(v, Opaque) else num(v)
        if isinstance(v, (Opaque, Ptr)):
            return v
        return conv(cells(v), t).item() if not isinstance(v, P) else conv(obj((), v), t).item()
    return v


# -- library functions -------------------------------------------------------------
def dot(a, b, out=None):
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        raise Unsup("dot of a scalar")
    a.samedev(b)
    for x in list(a.d.reshape(-1)) + list(b.d.reshape(-1)):
        if x is UNINIT:
            x._bad()
    k = a.shape[-1]
    if b.shape[0 if b.ndim == 1 else -2] != k:
        raise PyErr("ValueError", f"shapes {a.shape} and {b.shape} not aligned")
    if k == 0:
        sh = a.shape[:-1] + (b.shape[:-2] + b.shape[-1:] if b.ndim > 1 else ())
        r = obj(sh, Fraction(0))
    else:
        r = np.dot(a.d, b.d) if a.ndim <= 2 and b.ndim <= 2 else np.matmul(a.d, b.d)
    if not isinstance(r, np.ndarray):
        return r
    r = Arr(r, a.rtype("mul", b), a.dev)
    if out is not None:
        if out.shape != r.shape or out.dtype != r.dtype or not out.contig:
            raise PyErr("ValueError", "output array is not acceptable")
        out.d[...] = r.d
        return out
    return r


def clip(a, lo, hi, out=None):
    r = a
    if lo is not None:
        r = Arr(U["max"](r.d, lo if not isinstance(lo, Arr) else lo.d), r.dtype, a.dev)
    if hi is not None:
        r = Arr(U["min"](r.d, hi if not isinstance(hi, Arr) else hi.d), r.dtype, a.dev)
    if out is not None:
        out.d[...] = r.d
        return out
    return r


def repeat(a, n, axis=None):
    if isinstance(n, Arr):
        n = [int(x) for x in n.d]
    try:
        return Arr(np.repeat(a.d, n, axis=axis), a.dtype, a.dev)
    except ValueError as e:
        raise PyErr("ValueError", str(e))


class Rand:
    """numpy.random: draws are fresh symbols, with what they were drawn from."""

    def __init__(self, xp):
        self.xp = xp
        self.n = 0
        self.draws = []

    def draw(self, kind, params, size):
        self.n += 1
        sh = () if size is None else ((size,) if isinstance(size, int) else tuple(size))
        nm = f"{kind}{self.n}"
        r = np.empty(sh, dtype=object)
        for ix in np.ndindex(sh):
            s = nm + "".join(f"_{i}" for i in ix)
            if kind == "uniform" and all(isinstance(x, NUM) for x in params):
                lo, hi = num(params[0]), num(params[1])
                A.wit[s] = lo + (hi - lo) * Fraction((len(A.wit) * 37 + 11) % 101, 101)
            r[ix] = sym(s)
        self.draws.append((kind, params, sh, nm))
        return Arr(r, "float64", self.xp.dev) if sh else r.item()

    def uniform(self, low=0.0, high=1.0, size=None, **k): return self.draw("uniform", (low, high), size)
    def normal(self, loc=0.0, scale=1.0, size=None, **k): return self.draw("normal", (loc, scale), size)
    def random_sample(self, size=None): return self.draw("uniform", (0.0, 1.0), size)
    def standard_normal(self, size=None, **k): return self.draw("normal", (0.0, 1.0), size)
    random = random_sample

    def rand(self, *size): return self.draw("uniform", (0.0, 1.0), size)
    def randn(self, *size): return self.draw("normal", (0.0, 1.0), size)

    def shuffle(self, a):
        """Some permutation, not its own inverse."""
        d = a.d if isinstance(a, Arr) else None
        xs = list(d) if d is not None else list(a)
        xs = xs[1:] + xs[:1]
        xs[:2] = xs[:2][::-1] if len(xs) > 2 else xs[:2]
        self.draws.append(("shuffle", (), len(xs), ""))
        if d is not None:
            for i, x in enumerate(xs):
                d[i] = x
        else:
            a[:] = xs

    def permutation(self, a):
        if isinstance(a, int):
            a = Arr(cells(list(range(a))), "int64", self.xp.dev)
        b = a.copy() if isinstance(a, Arr) else list(a)
        self.shuffle(b)
        return b


class XP:
    """numpy or cupy."""

    def __init__(self, dev):
        self.dev = dev
        self.random = Rand(self)
        for t in SIZE:
            setattr(self, t, DT(t))
        self.bool_ = DT("bool")
        self.newaxis = None
        self.inf = float("inf")
        self.pi = Fraction("3.141592653589793")
        self.e = Fraction("2.718281828459045")
        self.ndarray = NDArray(dev)
        self.add = At("add", self)
        self.linalg = LinAlg(self)
        self.intc = DT("int32")

    def mine(self, x, opt=False):
        if isinstance(x, Arr):
            if x.dev != self.dev and self.dev == "cp":
                raise PyErr("TypeError", "the device library is given an array of the host")
            if x.dev != self.dev and not opt:
                raise PyErr("TypeError", "implicit conversion of a device array to the host")
            return x
        c = cells(x)
        return Arr(c, infer(c), self.dev)

    # creation
    def zeros(self, shape, dtype="float64", *a, **k): return self.full(shape, 0, dtype)
    def ones(self, shape, dtype="float64", *a, **k): return self.full(shape, 1, dtype)
    def empty(self, shape, dtype="float64", *a, **k): return self.full(shape, UNINIT, dtype)

    def full(self, shape, v, dtype="float64", **k):
        dt = DT(dtype if dtype is not None else "float64")
        sh = shp(shape)
        return Arr(obj(sh, UNINIT if v is UNINIT else conv(cells(v), dt).item()), dt, self.dev)

    def zeros_like(self, a, dtype=None, **k): return self.full(a.shape, 0, dtype or a.dtype)
    def ones_like(self, a, dtype=None, **k): return self.full(a.shape, 1, dtype or a.dtype)
    def empty_like(self, a, dtype=None, **k): return self.full(a.shape, UNINIT, dtype or a.dtype)
    def full_like(self, a, v, dtype=None, **k): return self.full(a.shape, v, dtype or a.dtype)

    def array(self, x, dtype=None, copy=True, order="K", **k):
        if isinstance(x, Arr):
            if self.dev == "np" and x.dev == "cp":
                raise PyErr("TypeError", "implicit conversion of a device array to the host")
            d = x.d.copy(order="C" if order in ("C",) else "K") if copy else x.d
            dt = DT(dtype) if dtype is not None else x.dtype
            return Arr(conv(d, dt) if dt != x.dtype else d, dt, self.dev)
        c = cells(x)
        dt = DT(dtype) if dtype is not None else infer(c)
        return Arr(conv(c, dt), dt, self.dev)

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, Arr) and x.dev == self.dev and (dtype is None or x.dtype == dtype):
            return x
        return self.array(x, dtype)

    def ascontiguousarray(self, x, dtype=None, **k):
        a = self.asarray(x, dtype)
        return a if a.contig else a.copy()

    def copy(self, a, **k): return a.copy()

    def arange(self, *a, dtype=None, **k):
        if any(not isinstance(x, int) for x in a):
            a = [int(x) if num(x).denominator == 1 else x for x in a]
            if any(not isinstance(x, int) for x in a):
                raise Unsup("arange over reals")
        r = list(range(*a))
        dt = DT(dtype) if dtype else DT("int64")
        return Arr(conv(cells(r), dt) if r else obj((0,), 0), dt, self.dev)

    def eye(self, n, m=None, dtype="float64", **k):
        r = self.zeros((n, m or n), dtype)
        for i in range(min(n, m or n)):
            r.d[i, i] = conv(cells(1), DT(dtype)).item()
        return r
    identity = eye

    def fill_diagonal(self, a, v, wrap=False):
        if wrap or len(set(a.shape)) != 1 or len(a.shape) < 2:
            raise Unsup("fill_diagonal of other arrays than squares")
        for i in range(a.shape[0]):
            a[(i,) * len(a.shape)] = v

    # joining
    def join(self, xs, f, **kw):
        xs = [self.mine(x) for x in xs]
        if not xs:
            raise PyErr("ValueError", "need at least one array to concatenate")
        t = DT(str(np.result_type(*[np.dtype(str(x.dtype)) for x in xs])))
        try:
            r = f([x.d for x in xs], **kw)
        except ValueError as e:
            raise PyErr("ValueError", str(e))
        return Arr(r, t, self.dev)

    def concatenate(self, xs, axis=0, out=None, **k): return self.join(xs, np.concatenate, axis=axis)
    def stack(self, xs, axis=0, **k): return self.join(xs, np.stack, axis=axis)
    def vstack(self, xs, **k): return self.join(xs, np.vstack)
    def hstack(self, xs, **k): return self.join(xs, np.hstack)
    def tile(self, a, n): return Arr(np.tile(a.d, n), a.dtype, self.dev)
    def repeat(self, a, n, axis=None): return repeat(self.mine(a), n, axis)

    def split(self, a, where, axis=0):
        a = self.mine(a)
        if isinstance(where, Arr):
            where = [int(x) for x in where.d]
        try:
            return [Arr(x, a.dtype, self.dev) for x in np.split(a.d, where, axis=axis)]
        except ValueError as e:
            raise PyErr("ValueError", str(e))
    array_split = split

    def pad(self, a, width, mode="constant", **k):
        if mode != "constant" or k.get("constant_values", 0) != 0:
            raise Unsup("pad mode")
        return Arr(np.pad(a.d, [tuple(w) for w in width] if isinstance(width, (list, tuple)) and isinstance(width[0], (list, tuple)) else width, mode="constant", constant_values=Fraction(0) if a.dtype.isfloat else 0), a.dtype, self.dev)

    # shape
    def reshape(self, a, sh): return a.reshape(sh)
    def transpose(self, a, ax=None): return a.transpose(ax) if ax is not None else a.T
    def expand_dims(self, a, axis): return Arr(np.expand_dims(a.d, axis), a.dtype, self.dev)
    def squeeze(self, a, axis=None): return Arr(np.squeeze(a.d, axis), a.dtype, self.dev)
    def ravel(self, a): return a.ravel()
    def flip(self, a, axis=None): return Arr(np.flip(a.d, axis), a.dtype, self.dev)
    def swapaxes(self, a, x, y): return a.swapaxes(x, y)
    def moveaxis(self, a, s, d): return Arr(np.moveaxis(a.d, s, d), a.dtype, self.dev)
    def broadcast_to(self, a, sh): return Arr(np.broadcast_to(a.d, sh), a.dtype, self.dev)
    def atleast_1d(self, a): return Arr(np.atleast_1d(self.mine(a).d), self.mine(a).dtype, self.dev)

    # reductions (numpy's pass an array of the device on to its own)
    def max(self, a, axis=None, **k): return self.mine(a, True).red("max", axis, **k)
    def min(self, a, axis=None, **k): return self.mine(a, True).red("min", axis, **k)
    def sum(self, a, axis=None, **k): return self.mine(a, True).red("sum", axis, **k)
    def mean(self, a, axis=None, **k): return self.mine(a, True).red("mean", axis, **k)
    def prod(self, a, axis=None, **k): return self.mine(a, True).red("prod", axis, **k)
    def all(self, a, axis=None, **k): return self.mine(a, True).red("all", axis, **k) if not isinstance(a, bool) else a
    def any(self, a, axis=None, **k): return self.mine(a, True).red("any", axis, **k) if not isinstance(a, bool) else a
    def argmax(self, a, axis=None, **k): return self.mine(a, True).red("argmax", axis, **k)
    def argmin(self, a, axis=None, **k): return self.mine(a, True).red("argmin", axis, **k)
    def cumsum(self, a, axis=None, **k): return self.mine(a, True).cumsum(axis, **k)
    amax, amin = max, min

    def count_nonzero(self, a): return sum(1 for x in self.mine(a, True).d.reshape(-1) if x)

    # elementwise
    def el(self, name, a, out=None, dtype=None):
        a = self.mine(a) if not isinstance(a, (P,) + NUM) else a
        if not isinstance(a, Arr):
            return fun(name, a)
        r = uf(guard(lambda x: fun(name, x)), 1)(a.d)
        r = Arr(r if isinstance(r, np.ndarray) else obj((), r), a.dtype if a.dtype.isfloat else DT("float64"), self.dev)
        if out is not None:
            out.d[...] = r.d
            return out
        return r

    def exp(self, a, out=None, **k): return self.el("exp", a, out)
    def log(self, a, out=None, **k): return self.el("log", a, out)
    def log1p(self, a, out=None, **k): return self.el("log1p", a, out)
    def tanh(self, a, out=None, **k): return self.el("tanh", a, out)
    def sqrt(self, a, out=None, **k): return self.el("sqrt", a, out)
    def sin(self, a, out=None, **k): return self.el("sin", a, out)
    def cos(self, a, out=None, **k): return self.el("cos", a, out)
    def cosh(self, a, out=None, **k): return self.el("cosh", a, out)

    def abs(self, a, out=None):
        return Arr(uf(guard(abs), 1)(a.d), a.dtype, self.dev) if isinstance(a, Arr) else abs(a)
    absolute = fabs = abs

    def scatter_add(self, a, idx, v): self.add.at(a, idx, v)

    def sign(self, a, out=None, **k):
        f = guard(lambda x: (x > 0) - (x < 0))
        return Arr(uf(f, 1)(a.d), a.dtype, self.dev) if isinstance(a, Arr) else f(a)

    def square(self, a, out=None): return a * a
    def negative(self, a, out=None): return -a
    def power(self, a, b, **k): return a ** b
    def clip(self, a, lo, hi, out=None): return clip(self.mine(a), lo, hi, out)

    def bi(self, op, a, b, out=None, **k):
        a, b = (self.mine(x) if isinstance(x, (list, tuple, Arr)) else x for x in (a, b))
        if isinstance(a, Arr):
            return a.bin(op, b, out=out)
        if isinstance(b, Arr):
            return b.bin(op, a, True, out=out)
        return U[op](a, b)

    def maximum(self, a, b, out=None, **k): return self.bi("max", a, b, out)
    def minimum(self, a, b, out=None, **k): return self.bi("min", a, b, out)
    def multiply(self, a, b, out=None, **k): return self.bi("mul", a, b, out)
    def subtract(self, a, b, out=None, **k): return self.bi("sub", a, b, out)
    def divide(self, a, b, out=None, **k): return self.bi("div", a, b, out)
    true_divide = divide

    def logical_and(self, a, b): return self.bi("and", a, b)
    def logical_or(self, a, b): return self.bi("or", a, b)
    def equal(self, a, b): return self.bi("eq", a, b)
    def greater(self, a, b): return self.bi("gt", a, b)
    def less(self, a, b): return self.bi("lt", a, b)
    def isnan(self, a): return self.full(a.shape, False, "bool")
    def isfinite(self, a): return self.full(a.shape, True, "bool")

    def array_equal(self, a, b):
        a, b = self.mine(a), self.mine(b)
        return a.shape == b.shape and all(bool(x == y) for x, y in zip(a.d.reshape(-1), b.d.reshape(-1)))

    def where(self, c, a=None, b=None):
        c = self.mine(c)
        cd = c.d.astype(bool)
        if a is None:
            return tuple(Arr(cells([int(i) for i in x]) if len(x) else obj((0,), 0), "int64", self.dev) for x in np.where(cd))
        ad, bd = (x.d if isinstance(x, Arr) else cells(x) for x in (a, b))
        ts = [x for x in (a, b) if isinstance(x, Arr)]
        if ts:
            t = ts[0].rtype("add", ts[1] if len(ts) > 1 else (b if ts[0] is a else a))
        else:
            t = infer(cells([a, b]))
        return Arr(np.where(cd, ad, bd), t, self.dev)

    # element types
    def dtype(self, t): return DT(t)

    def result_type(self, *ts):
        return DT(str(np.result_type(*[np.dtype(str(t.dtype if isinstance(t, Arr) else DT(t))) for t in ts])))
    promote_types = result_type

    def can_cast(self, a, b, casting="safe"):
        return bool(np.can_cast(np.dtype(str(a.dtype if isinstance(a, Arr) else DT(a))), np.dtype(str(DT(b))), casting))

    def issubdtype(self, t, k):
        t = DT(t)
        if isinstance(k, DT):
            return t == k
        kinds = {"floating": "f", "inexact": "f", "integer": "iu", "signedinteger": "i", "unsignedinteger": "u", "number": "fiu", "bool_": "b"}
        if k not in kinds:
            raise Unsup(f"issubdtype {k}")
        return t.kind in kinds[k]
    floating, inexact, integer, signedinteger, unsignedinteger, number = "floating", "inexact", "integer", "signedinteger", "unsignedinteger", "number"

    def ndim(self, a): return a.ndim if isinstance(a, Arr) else cells(a).ndim
    def shape(self, a): return a.shape if isinstance(a, Arr) else cells(a).shape
    def size(self, a): return a.size if isinstance(a, Arr) else cells(a).size
    def isscalar(self, a): return isinstance(a, NUM + (P,))
    def flatnonzero(self, a): return self.where(a.ravel())[0]
    def diff(self, a): return a[1:] - a[:-1]
    def logical_not(self, a): return self.where(a, False, True)
    def not_equal(self, a, b): return self.bi("ne", a, b)
    def greater_equal(self, a, b): return self.bi("ge", a, b)
    def less_equal(self, a, b): return self.bi("le", a, b)

    def nonzero(self, a): return self.where(a)
    def unique(self, a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
        if k or axis is not None:
            raise Unsup("unique with options")
        xs = [int(x) for x in a.d.reshape(-1)]
        v = sorted(set(xs))
        ints = lambda ys: Arr(cells(ys) if ys else obj((0,), 0), "int64", self.dev)
        out = [Arr(cells(v) if v else obj((0,), 0), a.dtype, self.dev)]
        if return_index:
            out.append(ints([xs.index(x) for x in v]))
        if return_inverse:
            out.append(ints([v.index(x) for x in xs]))
        if return_counts:
            out.append(ints([xs.count(x) for x in v]))
        return out[0] if len(out) == 1 else tuple(out)

    def argsort(self, a, axis=-1, **k):
        if a.ndim != 1:
            raise Unsup("argsort of a matrix")
        return Arr(cells(sorted(range(len(a)), key=lambda i: val(a.d[i]))), "int64", self.dev)

    def take(self, a, i, axis=None, **k): return a[i] if axis in (None, 0) else Unsup

    def dot(self, a, b, out=None): return dot(self.mine(a), self.mine(b), out)
    matmul = dot

    def tensordot(self, a, b, axes=2):
        if axes != [[0], [0]] and axes != 1:
            raise Unsup("tensordot axes")
        if axes == 1:
            return dot(a, b)
        r = np.tensordot(a.d, b.d, axes=axes)
        return Arr(r, a.dtype, self.dev)

    def einsum(self, *a, **k):
        raise Unsup("einsum")

    def outer(self, a, b): return Arr(np.outer(a.d, b.d), a.rtype("mul", b), self.dev)

    def put_along_axis(self, a, idx, vals, axis):
        i = a.idx(idx)
        vd = vals.d if isinstance(vals, Arr) else cells(vals)
        vd = np.broadcast_to(vd, i.shape) if vd.ndim else np.broadcast_to(vd, i.shape)
        for ix in np.ndindex(i.shape):
            t = list(ix)
            t[axis] = int(i[ix])
            if not -a.shape[axis] <= t[axis] < a.shape[axis]:
                raise PyErr("IndexError", "index out of bounds")
            a.d[tuple(t)] = vd[ix]

    def take_along_axis(self, a, idx, axis):
        i = a.idx(idx)
        return Arr(np.take_along_axis(a.d, i, axis), a.dtype, self.dev)



class NDArray:
    def __init__(self, dev):
        self.dev = dev


class At:
    """xp.add, with its unbuffered form."""

    def __init__(self, op, xp):
        self.op, self.xp = op, xp

    def __call__(self, a, b, out=None, **k):
        return self.xp.bi(self.op, a, b, out)

    def at(self, a, idx, v):
        i = a.idx(idx)
        if isinstance(i, tuple):
            raise Unsup("add.at with several index arrays")
        i = np.asarray(i)
        vd = v.d if isinstance(v, Arr) else cells(v)
        try:
            vd = np.broadcast_to(vd, i.shape + a.shape[1:])
        except ValueError as e:
            raise PyErr("ValueError", str(e))
        for ix in np.ndindex(i.shape):
            k = int(i[ix])
            if not -a.shape[0] <= k < a.shape[0]:
                raise PyErr("IndexError", "index out of bounds")
            if a.ndim == 1:
                a.d[k] = U[self.op](a.d[k], vd[ix])
            else:
                a.d[k] = U[self.op](a.d[k], vd[ix])
        return None


class LinAlg:
    def __init__(self, xp):
        self.xp = xp

    def norm(self, a, ord=None, axis=None, keepdims=False):
        if ord not in (None, 2) or isinstance(axis, tuple) or (ord == 2 and axis is None and len(a.shape) != 1):
            raise Unsup("norm of another kind")
        if axis is None and not keepdims:
            return fun("sqrt", (a * a).sum())
        return self.xp.sqrt((a * a).sum(axis=axis, keepdims=keepdims))


def shp(s):
    if isinstance(s, Arr):
        s = s.tolist() if s.ndim else s.item()
    if isinstance(s, (tuple, list)):
        r = tuple(shp1(x) for x in s)
    else:
        r = (shp1(s),)
    if any(x < 0 for x in r):
        raise PyErr("ValueError", "negative dimensions are not allowed")
    return r


def shp1(x):
    if isinstance(x, Arr):
        x = x.item()
    if isinstance(x, (P, float, Fraction)) or x is None:
        raise PyErr("TypeError", "a dimension is not an integer")
    return int(x)


def infer(c):
    k = "bool" if c.size else "float64"
    for x in c.reshape(-1):
        if isinstance(x, bool):
            t = "bool"
        elif isinstance(x, int):
            t = "int64"
        elif isinstance(x, (P, float, Fraction)) or x is UNINIT:
            t = "float64"
        elif isinstance(x, (Ptr, Opaque)):
            t = "int64"
        else:
            raise Unsup(f"array of {type(x).__name__}")
        order = ["bool", "int64", "float64"]
        k = max(k, t, key=order.index)
    return DT(k)
