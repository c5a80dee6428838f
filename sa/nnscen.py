"""Layers as seen by the cell domain: models built by their public constructor,
initialised from sample data, and run forward and backward over symbols."""
from fractions import Fraction

import numpy as np

from .cellval import A, P, UNINIT, Unsup, close, deriv, fun, show, symname
from .cellarr import Arr, DT
from .cellint import Obj
from .cellscen import Env

LAYERS = "thinc/layers/__init__.py"
TYPES = "thinc/types.py"
UTIL = "thinc/util.py"


class Net(Env):
    """An environment in which layers are built."""

    def __init__(self, kind="numpy", dt="float32", wit=None):
        super().__init__(kind, dt, wit=wit or (lambda name, idx, i: Fraction(1 + 37 * i % 211, 211)))
        self.layers()
        self.w.methods["erf"] = self.erf
        self.w.methods["hash"] = lambda ids, seed: self.N(hashes(ids.d.ravel(), int(seed)), dt="uint32")

    def erf(self, X):
        """The backends approximate it; B04 decides how."""
        out = Arr(X.d.copy(), X.dtype, X.dev)
        for i in np.ndindex(*X.shape):
            out.d[i] = fun("erf", X.d[i])
        return out

    def L(self, name, *a, **k):
        return self.w.ev.call(self.get(LAYERS, name), list(a), k)

    def run(self, f, *a, **k):
        return self.w.ev.call(f, list(a), k)

    def do(self, o, n, *a, **k):
        return self.w.ev.call(self.attr(o, n), list(a), k)

    # -- data
    def ragged(self, name, lengths, *width):
        return self.run(self.get(TYPES, "Ragged"), self.X(name, sum(lengths), *width), self.N(lengths))

    def padded(self, name, lengths, width):
        """As list2padded lays it out: longest first, time by batch by width; zeros in the padding."""
        order = sorted(range(len(lengths)), key=lambda i: -lengths[i])
        ls = [lengths[i] for i in order]
        T = max(ls)
        X = self.X(name, T, len(ls), width)
        for b, n in enumerate(ls):
            X.d[n:, b] = Fraction(0)
        size = [sum(1 for n in ls if n > t) for t in range(T)]
        return self.run(self.get(TYPES, "Padded"), X, self.N(size), self.N(ls), self.N(order))

    def lists(self, name, lengths, *width):
        return [self.X(f"{name}{i}r", n, *width) for i, n in enumerate(lengths)]

    # -- models
    def nodes(self, m):
        return list(self.w.ev.iter(self.do(m, "walk")))

    def params(self, m):
        """[(node, name, array)] of every parameter that is set."""
        out = []
        for nd in self.nodes(m):
            for p in self.attr(nd, "param_names"):
                if self.do(nd, "has_param", p):
                    out.append((nd, p, self.do(nd, "get_param", p)))
        return out

    def symbols(self, m, keep=()):
        """Every parameter becomes symbols."""
        for k, (nd, p, v) in enumerate(self.params(m)):
            if p in keep:
                continue
            n = f"{self.attr(nd, 'name')}{k}{p}".replace("(", "").replace(")", "").replace(">", "").replace("<", "").replace(" ", "").replace("|", "")
            v.d[...] = self.X(n, *v.shape).d

    def pgrad(self, nd, p):
        if self.do(nd, "has_grad", p):
            return self.do(nd, "get_grad", p)
        return None


def hashes(ids, seed):
    """Stands for the hash, which B08 decides: four values per id, mixed differently."""
    return np.array([[int(x) * 7 + seed * 3 + k * 5 + (int(x) + seed) * k * k for k in range(4)] for x in ids], dtype=int).reshape(len(ids), 4)


def kind_of(v):
    if isinstance(v, Arr):
        return "array"
    if isinstance(v, Obj):
        return v.cls.name
    return type(v).__name__


def leaves(v, path=""):
    """[(path, array)] of the data of a value."""
    if isinstance(v, Arr):
        return [(path, v)]
    if isinstance(v, (list, tuple)):
        return [x for i, y in enumerate(v) for x in leaves(y, f"{path}[{i}]")]
    if isinstance(v, Obj) and v.cls.name == "Ragged":
        d = v.at["data"]
        return [(path + ".data", d)]
    if isinstance(v, Obj) and v.cls.name == "Padded":
        return [(path + ".data", v.at["data"])]
    if isinstance(v, Obj) and v.cls.name == "Pairs":
        return leaves(v.at["one"], path + ".one") + leaves(v.at["two"], path + ".two")
    if v is None or isinstance(v, (int, str, Fraction)):
        return []
    raise Unsup(f"data of {kind_of(v)}")


def used_cells(v):
    """Cells of a Padded/Ragged/array that hold data: mask per leaf (None: all)."""
    if isinstance(v, Obj) and v.cls.name == "Padded":
        d, ls = v.at["data"], v.at["lengths"]
        m = np.zeros(d.shape, bool)
        for b in range(d.shape[1]):
            m[:int(ls.d[b]), b] = True
        return m
    return None


def like(e, v, name):
    """A gradient for a value: the same structure over fresh symbols."""
    if isinstance(v, Arr):
        return e.X(name, *v.shape, dt=v.dtype.name if v.dtype.kind == "f" else None)
    if isinstance(v, (list, tuple)):
        t = type(v)([clone(x) if isinstance(v, tuple) and isinstance(x, Arr) and x.dtype.kind in "iu" else like(e, x, f"{name}{i}q") for i, x in enumerate(v)])
        if isinstance(v, tuple) and len(v) == 4 and all(isinstance(x, Arr) for x in v) and [x.ndim for x in v] == [3, 1, 1, 1] and v[2].dtype.kind in "iu":
            for k, n in enumerate(v[2].d):
                t[0].d[int(n):, k] = Fraction(0)
        return t
    if isinstance(v, Obj) and v.cls.name == "Ragged":
        o = Obj(v.cls)
        o.at.update(v.at)
        o.at["data"] = like(e, v.at["data"], name)
        return o
    if isinstance(v, Obj) and v.cls.name == "Padded":
        o = Obj(v.cls)
        o.at.update(v.at)
        g = like(e, v.at["data"], name)
        m = used_cells(v)
        for i in np.ndindex(*g.shape):
            if not m[i]:
                g.d[i] = Fraction(0)
        o.at["data"] = g
        return o
    raise Unsup(f"gradient for {kind_of(v)}")


def clone(v):
    """A value of its own, cells and all."""
    if isinstance(v, Arr):
        return Arr(v.d.copy(), v.dtype, v.dev)
    if isinstance(v, (list, tuple)):
        return type(v)([clone(x) for x in v])
    if isinstance(v, Obj):
        o = Obj(v.cls)
        o.at.update({k: clone(x) for k, x in v.at.items()})
        return o
    return v


def contract(Y, dY):
    """Sum of dY * Y over all cells."""
    t = Fraction(0)
    for (_, a), (_, g) in zip(leaves(Y), leaves(dY)):
        for i in np.ndindex(*a.shape):
            if a.d[i] is UNINIT:
                continue
            t = t + a.d[i] * g.d[i]
    return t


def dcells(L, a):
    """Derivatives of L for the cells of an array of symbols (0 for plain numbers)."""
    out = np.empty(a.shape, object)
    for i in np.ndindex(*a.shape):
        out[i] = deriv(L, symname(a.d[i])) if isinstance(a.d[i], P) else None
    return out


def cells_differ(got, want, path):
    if not isinstance(got, Arr):
        return f"{path} is {kind_of(got)}, not an array"
    if tuple(got.shape) != tuple(want.shape):
        return f"{path} has shape {tuple(got.shape)}, {tuple(want.shape)} expected"
    for i in np.ndindex(*want.shape):
        if want[i] is None:
            continue
        ix = ",".join(map(str, i))
        if got.d[i] is UNINIT:
            return f"{path}[{ix}] is never written"
        if not close(got.d[i], want[i]):
            return f"{path}[{ix}] is {show(got.d[i])}, {show(want[i])} expected"
    return None


def structure(got, ref, path):
    """Same containers, lengths and shapes."""
    if isinstance(ref, Arr):
        if not isinstance(got, Arr):
            return f"{path} is {kind_of(got)}, {kind_of(ref)} expected"
        if tuple(got.shape) != tuple(ref.shape):
            return f"{path} has shape {tuple(got.shape)}, {tuple(ref.shape)} expected"
        return None
    if isinstance(ref, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(got) != len(ref):
            return f"{path} is {kind_of(got)} of {len(got) if isinstance(got, (list, tuple)) else '?'} items, {len(ref)} expected"
        for i, (g, r) in enumerate(zip(got, ref)):
            d = structure(g, r, f"{path}[{i}]")
            if not d and isinstance(ref, tuple) and isinstance(r, Arr) and r.dtype.kind in "iu":
                d = cells_differ(g, r.d, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(ref, Obj) and ref.cls.name in ("Ragged", "Padded"):
        if not isinstance(got, Obj) or got.cls.name != ref.cls.name:
            return f"{path} is {kind_of(got)}, {ref.cls.name} expected"
        for k in ("lengths", "size_at_t", "indices"):
            if k in ref.at and isinstance(ref.at[k], Arr):
                d = cells_differ(got.at.get(k), ref.at[k].d, f"{path}.{k}")
                if d:
                    return d
        return structure(got.at["data"], ref.at["data"], f"{path}.data")
    return None
