"""Scenarios of the provenance analysis: one public operation of one backend,
analysed from its entry point on arguments whose elements are symbols."""
import os
from fractions import Fraction

import numpy as np

from .cellval import A, P, PyErr, UNINIT, Unsup, Viol, close, coef, show, sym, symname
from .cellarr import DT, Arr, H, XP
from .cellint import Fuel, Obj, World
from .project import PKG, REPO

BACKENDS = {"base": ("thinc/backends/ops.py", "Ops"), "numpy": ("thinc/backends/numpy_ops.pyx", "NumpyOps"), "cupy": ("thinc/backends/cupy_ops.py", "CupyOps")}
FUEL = 3_000_000


class Node:
    """Position a finding is reported at."""

    class M:
        pass

    def __init__(self, rel, line=0):
        self._mod = Node.M()
        self._mod.rel = rel
        self.lineno = line
        self._parent = None


class Env:
    """A fresh analysed program and arguments for it."""

    def __init__(self, kind="numpy", dt="float32", grid=(2, 2), wit=None):
        A.reset()
        H.thread = None
        H.reads, H.writes = {}, {}
        self.kind, self.dt = kind, dt
        self.dev = "cp" if kind == "cupy" else "np"
        self.w = World(REPO, gpu=kind == "cupy")
        self.w.grid = grid
        self.w.ev.fuel = FUEL
        self.wit = wit or (lambda name, idx, i: Fraction(7 + 3 * i, 11))
        self.n = 0
        self._ops = None

    def layers(self):
        """Layers are built and run with this backend."""
        self.w.current = lambda: self.ops
        return self

    def mod(self, rel):
        return self.w.module(rel)

    def get(self, rel, name):
        v = self.mod(rel).get(name)
        return v

    @property
    def ops(self):
        if self._ops is None:
            rel, cls = BACKENDS[self.kind]
            self._ops = self.w.ev.call(self.get(rel, cls), [], {})
        return self._ops

    def X(self, name, *shape, dt=None, dev=None):
        d = np.empty(shape, object)
        for i in np.ndindex(*shape):
            s = name + "_".join(map(str, i))
            A.wit[s] = self.wit(name, i, self.n)
            self.n += 1
            d[i] = sym(s)
        return Arr(d, dt or self.dt, dev or self.dev)

    def N(self, vals, dt="int32", dev=None):
        """Numbers."""
        a = np.array(vals)
        d = np.empty(a.shape, object)
        for i in np.ndindex(*a.shape):
            d[i] = a[i].item()
        return Arr(d, dt, dev or self.dev)

    def call(self, name, *a, **k):
        return self.w.ev.call(self.w.ev.attr(self.ops, name, None), list(a), k)

    def fn(self, rel, name, *a, **k):
        return self.w.ev.call(self.get(rel, name), list(a), k)

    def attr(self, o, n):
        return self.w.ev.attr(o, n, None)

    def path(self):
        return sorted(f"{os.path.basename(str(f))}:{n}" for f, n in self.w.used if n)


def where_is(env, op):
    """File, class and line of the method the backend runs for an operation."""
    try:
        c, node = env.ops.cls.find(op)
        if c is not None:
            return c.mod.rel, f"{c.name}.{op}", getattr(node, "lineno", 0)
    except Exception:
        pass
    rel, cls = BACKENDS[env.kind]
    return rel, f"{cls}.{op}", 0


def run(env, f):
    """('ok', result) | ('raise', kind, message) | ('viol', what, where) | ('unsup', why)"""
    try:
        return ("ok", f(env))
    except PyErr as e:
        return ("raise", e.kind, e.msg)
    except Viol as e:
        return ("viol", e.what, e.where)
    except Fuel:
        return ("viol", "the computation does not come to an end on this input", "")
    except Unsup as e:
        return ("unsup", str(e))
    except RecursionError:
        return ("viol", "the computation does not come to an end on this input (recursion)", "")
    except Exception as e:           # the reader, not the program
        t = e.__traceback__
        while t.tb_next:
            t = t.tb_next
        if isinstance(e, NameError) and os.path.basename(t.tb_frame.f_code.co_filename).startswith("rules_"):
            raise
        if os.environ.get("SA_DEBUG"):
            raise
        return ("unsup", f"{type(e).__name__}: {e}")
    finally:
        H.thread = None
        H.reads, H.writes = {}, {}


def arr(shape, f):
    d = np.empty(shape, object)
    for i in np.ndindex(*shape):
        d[i] = f(*i)
    return d


def zeros(*shape):
    return arr(shape, lambda *i: 0)


def transpose(Y, X, dY):
    """Transposed map: Y (spec output, cells) linear in the cells of X, applied to dY."""
    out = zeros(*X.shape)
    for i in np.ndindex(*Y.shape):
        for j in np.ndindex(*X.shape):
            c = coef(Y[i], symname(X[j]))
            if not (isinstance(c, (int, Fraction)) and c == 0):
                out[j] = out[j] + c * dY[i]
    return out


def bad_cell(c):
    return c is UNINIT


def compare(got, want, dtype=None, path="result", exact=False):
    """None, or what is different.  want: ndarray of cells, list/tuple of wants, scalar, or None to accept anything."""
    if want is None:
        return None
    if callable(want) and not isinstance(want, P):
        return want(got)
    if hasattr(got, "v") and type(got).__name__ == "SameAs":
        return differ(got.v, want, path)
    if isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)):
            return f"{path} is {type(got).__name__}, not a sequence"
        if len(got) != len(want):
            return f"{path} has {len(got)} items, {len(want)} expected"
        for i, (g, w) in enumerate(zip(got, want)):
            r = compare(g, w, dtype, f"{path}[{i}]")
            if r:
                return r
        return None
    if isinstance(want, np.ndarray):
        if not isinstance(got, Arr):
            return f"{path} is {type(got).__name__}, not an array"
        if tuple(got.d.shape) != tuple(want.shape):
            return f"{path} has shape {tuple(got.d.shape)}, {tuple(want.shape)} expected"
        if dtype is not None and want.size and DT(dtype) != got.dtype:
            return f"{path} holds {got.dtype}, {DT(dtype)} expected"
        for i in np.ndindex(*want.shape):
            g, w = got.d[i], want[i]
            ix = ",".join(map(str, i))
            if g is UNINIT:
                return f"{path}[{ix}] is never written"
            if w is None:
                continue
            if not close(g, w):
                return f"{path}[{ix}] is {show(g)}, {show(w)} expected"
        return None
    if isinstance(got, Arr) and got.size == 1:
        got = got.d.reshape(-1)[0]
    if got is UNINIT:
        return f"{path} is never written"
    if isinstance(want, (int, float, Fraction, P)) and not isinstance(want, bool):
        if not isinstance(got, (int, float, Fraction, P)) or not close(got, want):
            return f"{path} is {show(got) if isinstance(got, (int, float, Fraction, P)) else got!r}, {show(want)} expected"
        return None
    if got != want:
        return f"{path} is {got!r}, {want!r} expected"
    return None


def differ(got, want, path="result"):
    """Two outcomes of the same operation."""
    if isinstance(want, list):
        if not isinstance(got, list) or len(got) != len(want):
            return f"{path} differs in its structure"
        for i, (g, w) in enumerate(zip(got, want)):
            name = {"result0": "the result", "result1": "the arguments after the call"}.get(f"{path}{i}", f"{path}[{i}]")
            r = differ(g, w, name)
            if r:
                return r
        return None
    if isinstance(want, np.ndarray):
        if not isinstance(got, np.ndarray) or got.shape != want.shape:
            return f"{path} differs in its shape"
        for i in np.ndindex(*want.shape):
            if not (got[i] is UNINIT and want[i] is UNINIT) and not close(got[i], want[i]):
                return f"{path}[{','.join(map(str, i))}] is {show(got[i])}, and {show(want[i])} for a plain argument"
        return None
    if isinstance(want, (int, Fraction, P)) and not isinstance(want, bool):
        if not isinstance(got, (int, Fraction, P)) or not close(got, want):
            return f"{path} is {got!r}, and {want!r} for a plain argument"
    return None
