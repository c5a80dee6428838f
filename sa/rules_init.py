"""Initialisation of layers, decided over cells: dimensions, parameters, initial values."""
from fractions import Fraction

import numpy as np

from .cellval import A, P, UNINIT, Unsup, close, deriv, fun, show, sym
from .cellarr import Arr
from .cellint import Obj
from .cellscen import Node, arr, run
from .nnscen import Net, clone, kind_of, leaves, structure
from .nnspec import plus, ACT, F, R, affine, attention, cat, cauchy, each, hcat, layernorm, maxout, per_seq, pool, softmax
from .nnspec import like as rows
from .rules_nn import C, FILES, LAY, Lin, L, cauchy_w, out_differs, same, x2

# mode -> (nO given by constructor, nI given by constructor, X given, Y given)
MODES = {"X and Y": (0, 0, 1, 1), "X": (1, 0, 1, 0), "Y": (0, 1, 0, 1), "nothing": (1, 1, 0, 0), "X and Y, preset": (1, 1, 1, 1)}


class I:
    def __init__(self, name, file, build, X, Y, dims, nO=3, nI=2, fwd=None, modes=("X and Y", "X", "nothing", "X and Y, preset"), values=None, like=True, less=None):
        self.name, self.file, self.build, self.X, self.Y, self.dims, self.nO, self.nI, self.fwd, self.modes = name, LAY + file + ".py", build, X, Y, dims, nO, nI, fwd, modes
        self.values = values or {}
        self.like = like
        self.less = less or {}      # dimensions of the whole that this mode may leave unset


def dims_of(e, nd):
    """{dim: value or None}"""
    return {d: (e.do(nd, "get_dim", d) if e.do(nd, "has_dim", d) else None) for d in e.attr(nd, "dim_names")}


def unfit(e, m, want):
    """None, or which dimension is not what it has to be."""
    for k, (nd, w) in enumerate(zip(e.nodes(m), want)):
        got = dims_of(e, nd)
        for d, v in (w or {}).items():
            if d not in got:
                return f"node {k} ({nd.at['name']}) has no dimension {d}"
            if got[d] is None or int(got[d]) != v:
                return f"dimension {d} of node {k} ({nd.at['name']}) is {got[d]}, {v} expected"
    return None


def examine(sc, mode, kind, out):
    po, pi, gx, gy = MODES[mode]

    def f(e):
        m = sc.build(e, sc.nO if po else None, sc.nI if pi else None)
        X, Y = sc.X(e), sc.Y(e)
        kw = {}
        if gx:
            kw["X"] = clone(X)
        if gy:
            kw["Y"] = clone(Y)
        held = {k: clone(v) for k, v in kw.items()}
        e.do(m, "initialize", **kw)
        for k, v in kw.items():
            r = same(v, held[k], f"the sample {k}")
            if r:
                out.append(("intact", f"initialize changes the caller's data: {r}"))
        lax = sc.less.get(mode, ())
        r = unfit(e, m, [{d: v for d, v in (w or {}).items() if k or d not in lax} for k, w in enumerate(sc.dims)])
        if r:
            out.append(("dims", r))
            return None
        ps = []
        for k, nd in enumerate(e.nodes(m)):
            for p in e.attr(nd, "param_names"):
                if not e.do(nd, "has_param", p):
                    out.append(("params", f"parameter {p} of node {k} ({nd.at['name']}) is not set"))
                    return None
                ps.append((nd, p, e.do(nd, "get_param", p)))
        for nd, p, v in ps:
            if not isinstance(v, Arr) or v.dtype.name != "float32":
                out.append(("params", f"parameter {p} of {nd.at['name']} is {v.dtype.name if isinstance(v, Arr) else kind_of(v)}, float32 expected"))
            elif any(v.d[i] is UNINIT for i in np.ndindex(*v.shape)):
                out.append(("params", f"parameter {p} of {nd.at['name']} is not filled in"))
        for p in sc.values:
            if p not in [x for _, x, _ in ps]:
                out.append(("params", f"no node has a parameter {p}"))
        seen = {}
        for nd, p, v in ps:
            what = sc.values.get(p)
            if what is None:
                continue
            r = drawn(e, v, what)
            if r:
                out.append(("values", f"parameter {p} of {nd.at['name']} {r}"))
            if what[0] in ("uniform", "normal"):
                for x in v.d.ravel():
                    s = show(x)
                    if s in seen and seen[s] != (id(nd), p):
                        out.append(("values", f"parameter {p} of {nd.at['name']} holds the same random values as another parameter"))
                        break
                    seen[s] = (id(nd), p)
        e.symbols(m)
        before = [(dims_of(e, nd), nd.at["name"]) for nd in e.nodes(m)]
        Y2, _ = e.run(m, clone(X), False)
        if sc.like:
            r = structure(Y2, Y, "the output")
            if r:
                out.append(("output", f"after initialize with {mode}: {r}"))
        if sc.fwd is not None:
            r = out_differs(Y2, sc.fwd(C(e, m), X))
            if r:
                out.append(("output", f"after initialize with {mode}: {r}"))
        n = [[p for p in e.attr(nd, "param_names")] for nd in e.nodes(m)]
        e.do(m, "initialize", **{k: clone(v) for k, v in held.items()})
        after = [(dims_of(e, nd), nd.at["name"]) for nd in e.nodes(m)]
        if before != after or n != [[p for p in e.attr(nd, "param_names")] for nd in e.nodes(m)]:
            out.append(("again", "a second initialize with the same data changes dimensions or parameters"))
        return None

    e = Net(kind)
    r = run(e, f)
    A.dmemo.clear()
    A.points.clear()
    if r[0] == "raise":
        out.append(("raise", f"raises {r[1]}: {r[2]}"))
    elif r[0] == "viol":
        out.append(("dims", r[1] + (f" ({r[2]})" if r[2] else "")))
    return r


def scale(n, fan):
    return fun("sqrt", Fraction(n) / fan)


def drawn(e, v, what):
    """None, or how the cells of a parameter differ from what they are to be: ("is", number) or
    (distribution, parameters from the shape)."""
    if what[0] == "is":
        for i in np.ndindex(*v.shape):
            if not close(v.d[i], what[1]):
                return f"starts as {show(v.d[i])}, {what[1]} expected"
        return None
    if what[0] == "mark":
        for i in np.ndindex(*v.shape):
            x = v.d[i]
            if not isinstance(x, P) or [n[:len(what[1])] for n in names(x)] != [what[1]] or not close(x, sym(names(x)[0])):
                return f"is {show(x)}, not what the given initializer returned"
        return None
    kind, params = what[0], what[1](v.shape)
    return law(e, v, kind, params)


def names(x):
    """Symbols of a cell, outside of functions."""
    return sorted({A.tab[i][1] for k in x.m for i, _ in k if A.tab[i][0] == "sym"})


def law(e, v, kind, params):
    draws = {}
    for lib in {id(x): x for x in (e.w.np, e.w.cp)}.values():
        for k, ps, sh, nm in lib.random.draws:
            draws[nm] = (k, ps)
    seen = set()
    for i in np.ndindex(*v.shape):
        x = v.d[i]
        if not isinstance(x, P):
            return f"is not random ({show(x)})"
        ss = [s for s in names(x) if s.split("_")[0] in draws]
        if len(ss) != 1:
            return f"is {show(x)}, which is not one draw"
        k, ps = draws[ss[0].split("_")[0]]
        a = deriv(x, ss[0])
        b = x - a * sym(ss[0])
        if k != kind:
            return f"comes from a {k} distribution, {kind} expected"
        lo, hi = (a * ps[0] + b, a * ps[1] + b) if kind == "uniform" else (a * ps[0] + b, a * ps[1])
        if not (close(lo, params[0]) and close(hi, params[1])):
            n = ("from", "to") if kind == "uniform" else ("mean", "deviation")
            return f"is {kind} {n[0]} {show(lo)} {n[1]} {show(hi)}, {show(params[0])} and {show(params[1])} expected"
        if ss[0] in seen:
            return "holds one draw in several places"
        seen.add(ss[0])
    return None


# ---- scenarios --------------------------------------------------------------

GLOROT_U = ("uniform", lambda sh: (-scale(6, sh[0] + sh[1]), scale(6, sh[0] + sh[1])))
HE_U = ("uniform", lambda sh: (-scale(6, sh[1]), scale(6, sh[1])))
HE_N = ("normal", lambda sh: (F(0), scale(2, sh[1])))
TENTH = ("uniform", lambda sh: (F(-1, 10), F(1, 10)))
ZERO, ONE = ("is", 0), ("is", 1)
DEFAULTS = {"Linear": GLOROT_U, "Relu": GLOROT_U, "Mish": GLOROT_U, "Maxout": GLOROT_U}


def scenarios():
    out = []

    def add(name, file, build, X, Y, dims, **k):
        out.append(I(name, file, build, X, Y, dims, **k))

    xa, ya = x2(4, 2), (lambda e: e.X("y", 4, 3))
    io = {"nO": 3, "nI": 2}
    every = ("X and Y", "X", "Y", "nothing", "X and Y, preset")
    noY = ("X", "nothing", "X and Y, preset")

    for n, f in ACT.items():
        add(n, FILES[n], lambda e, o, i, n=n: e.L(n, o, i), xa, ya, [io], fwd=lambda c, X, f=f: each(affine(X.d, c.p("W"), c.p("b")), f), modes=every, values={"b": ZERO, **({"W": DEFAULTS[n]} if n in DEFAULTS else {})})
        if n not in ("Linear", "Sigmoid", "ClippedLinear", "ReluK", "HardSigmoid", "HardTanh"):
            add(n + "(normalize, dropout)", FILES[n], lambda e, o, i, n=n: e.L(n, o, i, normalize=True, dropout=F(1, 4)), xa, ya, [io], modes=("X and Y", "X", "nothing"), values={"G": ONE, "b": ZERO}, less={"nothing": {"nO"}})
    add("Maxout", "maxout", lambda e, o, i: e.L("Maxout", o, i, 2), xa, ya, [{**io, "nP": 2}], fwd=lambda c, X: maxout(X.d, c.p("W"), c.p("b")), modes=every, values={"b": ZERO, "W": GLOROT_U})
    add("Maxout(normalize)", "maxout", lambda e, o, i: e.L("Maxout", o, i, 3, normalize=True), xa, ya, [io, {**io, "nP": 3}, {"nO": 3, "nI": 3}], values={"G": ONE, "b": ZERO}, modes=("X and Y", "X", "nothing"))
    for n in ("Softmax", "Softmax_v2"):
        add(n, "softmax", lambda e, o, i, n=n: e.L(n, o, i), xa, ya, [io], fwd=lambda c, X: softmax(affine(X.d, c.p("W"), c.p("b"))), modes=every, values={"b": ZERO, "W": ZERO})
    add("MultiSoftmax", "multisoftmax", lambda e, o, i: e.L("MultiSoftmax", (1, 2), i), xa, ya, [io], modes=("X", "Y", "nothing", "X and Y, preset"), values={"b": ZERO, "W": ZERO})
    add("LayerNorm", "layernorm", lambda e, o, i: e.L("LayerNorm", i), xa, lambda e: e.X("y", 4, 2), [{"nI": 2, "nO": 2}], modes=("X and Y", "X", "nothing"), values={"G": ONE, "b": ZERO}, fwd=lambda c, X: layernorm(X.d, c.p("G"), c.p("b")))
    add("Embed", "embed", lambda e, o, i: e.L("Embed", o, 4), lambda e: e.N([1, 0, 3, 3]), ya, [{"nO": 3, "nV": 4}], modes=every, values={"E": TENTH})
    add("Embed(column=1)", "embed", lambda e, o, i: e.L("Embed", o, 4, column=1), lambda e: e.N([[9, 1], [9, 0], [9, 3], [9, 3]]), ya, [{}, {}, {"nO": 3, "nV": 4}], modes=("X and Y", "X", "nothing"), values={"E": TENTH})
    add("HashEmbed", "hashembed", lambda e, o, i: e.L("HashEmbed", o, 4, seed=1), lambda e: e.N([1, 0, 3, 3], dt="uint64"), ya, [{"nO": 3, "nV": 4}], modes=noY, values={"E": TENTH})
    add("HashEmbed(column=1)", "hashembed", lambda e, o, i: e.L("HashEmbed", o, 4, seed=1, column=1), lambda e: e.N([[9, 1], [9, 0], [9, 3], [9, 3]], dt="uint64"), ya, [{}, {}, {"nO": 3, "nV": 4}], modes=("X", "nothing"), values={"E": TENTH})
    rg = lambda e: e.ragged("x", [2, 1], 2)
    for n in ("ParametricAttention", "ParametricAttention_v2"):
        add(n, n.lower(), lambda e, o, i, n=n: e.L(n, nO=o), rg, lambda e: e.ragged("y", [2, 1], 2), [{"nO": 2}], nO=2, modes=("X and Y", "X", "X and Y, preset"), fwd=lambda c, X: attention(X, c.p("Q")), values={"Q": TENTH})
    add("ParametricAttention_v2(key_transform)", "parametricattention_v2", lambda e, o, i: e.L("ParametricAttention_v2", key_transform=e.L("Linear", 2, i)), rg, lambda e: e.ragged("y", [2, 1], 2), [{"nO": 2}, {"nO": 2, "nI": 2}], nO=2, modes=("X and Y", "X"),
        fwd=lambda c, X: attention(X, c.p("Q"), lambda d: affine(d, c.p("W"), c.p("b"))), values={"Q": TENTH, "b": ZERO})
    xy = lambda e: (e.X("x", 2, 2), e.X("y", 2, 2))
    add("CauchySimilarity", "cauchysimilarity", lambda e, o, i: e.L("CauchySimilarity", i), xy, lambda e: e.X("z", 2), [{"nI": 2, "nO": 1}], modes=("X and Y", "X", "nothing"), fwd=lambda c, X: cauchy(X[0].d, X[1].d, cauchy_w(c)), values={"W": ONE})
    add("siamese", "siamese", lambda e, o, i: e.L("siamese", e.L("Linear", o, i), e.L("CauchySimilarity")), xy, lambda e: e.X("z", 2), [{"nI": 2, "nO": 1}, {"nI": 2, "nO": 3}, {"nI": 3, "nO": 1}], modes=("X",),
        fwd=lambda c, X: cauchy(Lin(X[0].d, c), Lin(X[1].d, c), cauchy_w(c)))

    def mark(e, n):
        return lambda ops, shape, **k: e.X("given" + n, *[int(x) for x in shape])
    wb = {"W": ("mark", "givenW"), "b": ("mark", "givenb")}
    for n in list(ACT) + ["Maxout", "Softmax", "Softmax_v2"]:
        add(n + " with given initializers", FILES.get(n, "softmax"), lambda e, o, i, n=n: e.L(n, o, i, init_W=mark(e, "W"), init_b=mark(e, "b")), xa, ya, [io], modes=("X and Y",), values=wb)
    for n in ("Relu", "Mish", "Gelu", "Swish", "Dish", "HardSwish", "HardSwishMobilenet", "Maxout"):
        add(n + "(normalize) with given initializers", FILES[n], lambda e, o, i, n=n: e.L(n, o, i, normalize=True, init_W=mark(e, "W"), init_b=mark(e, "b")), xa, ya, [io], modes=("X and Y",), values={"W": wb["W"]})
    for n in ("Embed", "HashEmbed"):
        add(n + " with a given initializer", n.lower(), lambda e, o, i, n=n: e.L(n, o, 4, initializer=mark(e, "E")), lambda e: e.N([1, 0, 3, 3], dt="uint64"), ya, [{"nO": 3, "nV": 4}], modes=("X",), values={"E": ("mark", "givenE")})

    # composites of linear layers
    def lin(e, o, i):
        return e.L("Linear", o, i)
    two = lambda c, x: Lin(Lin(x, c), c, 1)
    add("chain", "chain", lambda e, o, i: e.L("chain", e.L("Linear", 4, i), e.L("Linear", o)), xa, ya, [io, {"nO": 4, "nI": 2}, {"nO": 3, "nI": 4}], modes=("X and Y", "X", "X and Y, preset"), fwd=lambda c, X: two(c, X.d), values={"b": ZERO, "W": GLOROT_U})
    add("chain of set layers", "chain", lambda e, o, i: e.L("chain", e.L("Linear", 4, 2), e.L("Linear", 3, 4)), xa, ya, [io, {"nO": 4, "nI": 2}, {"nO": 3, "nI": 4}], modes=("X and Y", "X", "Y", "nothing"), fwd=lambda c, X: two(c, X.d))
    add("chain of three, the middle one without dimensions", "chain", lambda e, o, i: e.L("chain", e.L("Linear", 4, i), e.L("Dropout", F(1, 4)), e.L("Linear", o)), xa, ya, [io, {"nO": 4, "nI": 2}, {}, {"nO": 3, "nI": 4}], modes=("X and Y", "X"), fwd=lambda c, X: two(c, X.d))
    add("chain of unset layers", "chain", lambda e, o, i: e.L("chain", e.L("Linear", None, i), e.L("Linear", o)), xa, ya, [io, {"nO": 3, "nI": 2}, {"nO": 3, "nI": 3}], modes=("X and Y",), fwd=lambda c, X: two(c, X.d))
    add("nested chain", "chain", lambda e, o, i: e.L("chain", e.L("chain", e.L("Linear", 4, i), e.L("Linear", 5)), e.L("Softmax", o)), xa, ya, [io, {"nO": 5, "nI": 2}, {"nO": 3, "nI": 5}], modes=("X and Y", "X"), fwd=lambda c, X: softmax(Lin(Lin(Lin(X.d, c, 1), c, 2), c)))
    add("chain starting without dimensions", "chain", lambda e, o, i: e.L("chain", e.L("list2array"), e.L("Linear", o, i)), lambda e: e.lists("x", [2, 2], 2), ya, [{"nO": 3}, {}, io], modes=("X and Y", "X", "nothing"), fwd=lambda c, X: Lin(cat([x.d for x in X]), c))
    add("clone", "clone", lambda e, o, i: e.L("clone", e.L("Linear", o), 3), xa, ya, [io], modes=("X and Y", "X"), fwd=lambda c, X: Lin(two(c, X.d), c, 2), values={"W": GLOROT_U, "b": ZERO})
    add("clone(normalize)", "clone", lambda e, o, i: e.L("clone", e.L("Relu", o, normalize=True), 2), xa, ya, [io], modes=("X and Y", "X"))
    add("concatenate", "concatenate", lambda e, o, i: e.L("concatenate", lin(e, 1, i), lin(e, 2, i)), xa, ya, [io, {"nO": 1, "nI": 2}, {"nO": 2, "nI": 2}], modes=("X and Y", "X", "nothing"), fwd=lambda c, X: hcat(Lin(X.d, c), Lin(X.d, c, 1)), values={"W": GLOROT_U}, less={"nothing": {"nI"}})
    def shared(e, name, o, i, *more):
        a = lin(e, o, i)
        return e.L(name, a, *[lin(e, n, i) for n in more], a)
    add("concatenate of a layer twice", "concatenate", lambda e, o, i: shared(e, "concatenate", 3, i, 2), xa, lambda e: e.X("y", 4, 8), [{"nO": 8, "nI": 2}, io, {"nO": 2, "nI": 2}], modes=("X and Y", "X"), fwd=lambda c, X: hcat(Lin(X.d, c), Lin(X.d, c, 1), Lin(X.d, c)))
    add("add of a layer twice", "add", lambda e, o, i: shared(e, "add", 3, i), xa, ya, [io, io], modes=("X and Y", "X"), fwd=lambda c, X: plus(Lin(X.d, c), Lin(X.d, c)))
    add("tuplify of a layer twice", "tuplify", lambda e, o, i: shared(e, "tuplify", 3, i, 1), xa, lambda e: (e.X("y", 4, 3), e.X("z", 4, 1), e.X("v", 4, 3)), [{"nI": 2}, io, {"nO": 1, "nI": 2}], modes=("X and Y", "X"), fwd=lambda c, X: (Lin(X.d, c), Lin(X.d, c, 1), Lin(X.d, c)))
    add("tuplify of three", "tuplify", lambda e, o, i: e.L("tuplify", lin(e, o, i), lin(e, o and 1, i), lin(e, o and 4, i)), xa, lambda e: (e.X("y", 4, 3), e.X("z", 4, 1), e.X("v", 4, 4)), [{"nI": 2}, io, {"nO": 1, "nI": 2}, {"nO": 4, "nI": 2}], modes=("X and Y", "X"), fwd=lambda c, X: (Lin(X.d, c), Lin(X.d, c, 1), Lin(X.d, c, 2)))
    add("concatenate(LayerNorm, Linear)", "concatenate", lambda e, o, i: e.L("concatenate", e.L("LayerNorm"), lin(e, 1, i)), xa, ya, [io, {"nO": 2, "nI": 2}, {"nO": 1, "nI": 2}], modes=("X",))
    add("add", "add", lambda e, o, i: e.L("add", lin(e, o, i), lin(e, o, i)), xa, ya, [io, io, io], modes=every, fwd=lambda c, X: Lin(X.d, c) + Lin(X.d, c, 1), values={"W": GLOROT_U}, less={"nothing": {"nI"}, "Y": {"nI"}})
    add("chain of concatenate and Linear", "concatenate", lambda e, o, i: e.L("chain", e.L("concatenate", lin(e, 1, i), lin(e, 4, i)), lin(e, o, None)), xa, ya, [io, {"nO": 5, "nI": 2}, io and {"nO": 3, "nI": 5}], modes=("X and Y", "X"))
    add("chain of add and Linear", "add", lambda e, o, i: e.L("chain", e.L("add", lin(e, 4, i), lin(e, 4, i)), lin(e, o, None)), xa, ya, [io, {"nO": 4, "nI": 2}, {"nO": 3, "nI": 4}], modes=("X and Y", "X"))
    add("residual", "residual", lambda e, o, i: e.L("residual", lin(e, o, i)), x2(4, 2), lambda e: e.X("y", 4, 2), [{"nO": 2, "nI": 2}, {"nO": 2, "nI": 2}], nO=2, modes=("X and Y", "X", "nothing"), fwd=lambda c, X: X.d + Lin(X.d, c))
    add("residual(Maxout(normalize))", "residual", lambda e, o, i: e.L("residual", e.L("Maxout", o, i, normalize=True)), x2(4, 2), lambda e: e.X("y", 4, 2), [{"nO": 2, "nI": 2}], nO=2, modes=("X and Y", "X"))
    add("tuplify", "tuplify", lambda e, o, i: e.L("tuplify", lin(e, o, i), lin(e, o and 1, i)), xa, lambda e: (e.X("y", 4, 3), e.X("z", 4, 1)), [{"nI": 2}, io, {"nO": 1, "nI": 2}], modes=("X and Y", "X", "nothing"), fwd=lambda c, X: (Lin(X.d, c), Lin(X.d, c, 1)))
    add("with_reshape", "with_reshape", lambda e, o, i: e.L("with_reshape", lin(e, o, i)), x2(2, 2, 2), lambda e: e.X("y", 2, 2, 3), [io, io], modes=("X and Y", "X", "nothing", "Y"), fwd=lambda c, X: arr((2, 2, 3), lambda i, t, j: Lin(X.d[i, t:t + 1], c)[0, j]))
    add("with_getitem", "with_getitem", lambda e, o, i: e.L("with_getitem", 1, lin(e, o, i)), lambda e: (e.X("a", 1, 5), e.X("b", 2, 2)), lambda e: (e.X("c", 1, 5), e.X("d", 2, 3)), [{}, io], modes=("X and Y", "X", "nothing"), fwd=lambda c, X: (X[0].d, Lin(X[1].d, c)))
    add("map_list", "map_list", lambda e, o, i: e.L("map_list", lin(e, o, i)), lambda e: e.lists("x", [2, 1], 2), lambda e: e.lists("y", [2, 1], 3), [{}, io], modes=("X and Y", "X", "nothing"), fwd=lambda c, X: [Lin(x.d, c) for x in X])
    add("with_flatten_v2", "with_flatten_v2", lambda e, o, i: e.L("with_flatten_v2", e.L("map_list", lin(e, o, i))), lambda e: [[e.X("a", 1, 2), e.X("b", 2, 2)], [e.X("c", 1, 2)]], lambda e: [[e.X("f", 1, 3), e.X("g", 2, 3)], [e.X("h", 1, 3)]], [{}, {}, io],
        modes=("X and Y", "X", "nothing"), fwd=lambda c, X: [[Lin(x.d, c) for x in y] for y in X])
    add("resizable", "resizable", lambda e, o, i: e.L("resizable", lin(e, o, i), None), xa, ya, [{}, io], modes=("X and Y", "X", "nothing"), fwd=lambda c, X: Lin(X.d, c))
    add("with_debug", "with_debug", lambda e, o, i: e.L("with_debug", lin(e, o, i)), xa, ya, [io], modes=("X and Y", "X", "nothing"), fwd=lambda c, X: Lin(X.d, c))
    add("with_nvtx_range", "with_nvtx_range", lambda e, o, i: e.L("with_nvtx_range", lin(e, o, i)), xa, ya, [io], modes=("X and Y", "X", "nothing"), fwd=lambda c, X: Lin(X.d, c))
    add("uniqued", "uniqued", lambda e, o, i: e.L("uniqued", e.L("Embed", o, 4, column=0), column=0), lambda e: e.N([[1, 9], [0, 9], [3, 9], [3, 9]]), ya, [{}], modes=("X and Y", "X", "nothing"), values={"E": TENTH})
    add("bidirectional", "bidirectional", lambda e, o, i: e.L("bidirectional", e.L("with_array2d", lin(e, o and 2, i))), lambda e: e.padded("x", [1, 2], 2), lambda e: e.padded("y", [1, 2], 4), [{}], nO=2, modes=("X and Y", "X"),
        fwd=lambda c, X: rows(X, lambda x: hcat(Lin(x, c), Lin(x, c, 1))))

    # sequences
    kinds = [("lists", lambda e, w, n: e.lists(n, [2, 0, 1], w)), ("Ragged", lambda e, w, n: e.ragged(n, [2, 0, 1], w)), ("Padded", lambda e, w, n: e.padded(n, [1, 2], w))]
    for lab, mk in kinds:
        X, Y = (lambda e, mk=mk: mk(e, 2, "x")), (lambda e, mk=mk: mk(e, 3, "y"))
        f = lambda c, X: rows(X, lambda x: Lin(x, c))
        ms = ("X and Y", "X", "Y", "nothing")
        if lab != "Padded":
            add(f"with_array of {lab}", "with_array", lambda e, o, i: e.L("with_array", lin(e, o, i)), X, Y, [io, io], modes=ms, fwd=f)
            add(f"chain of with_array of {lab}", "with_array", lambda e, o, i: e.L("chain", e.L("with_array", e.L("Maxout", 4, i)), e.L("with_array", lin(e, o, None))), X, Y, [io, {"nO": 4, "nI": 2}, {"nO": 3, "nI": 4}], modes=("X and Y", "X"))
            add(f"residual(with_array) of {lab}", "residual", lambda e, o, i: e.L("residual", e.L("with_array", lin(e, o and 2, i))), X, X, [{"nO": 2, "nI": 2}], modes=("X and Y", "X"))
            add(f"concatenate of {lab}", "concatenate", lambda e, o, i: e.L("concatenate", e.L("with_array", lin(e, 1, i)), e.L("with_array", lin(e, 2, i))), X, Y, [io], modes=("X and Y", "X"))
        add(f"with_array2d of {lab}", "with_array2d", lambda e, o, i: e.L("with_array2d", lin(e, o, i)), X, Y, [{}, io], modes=ms, fwd=f)
        add(f"with_padded of {lab}", "with_padded", lambda e, o, i: e.L("with_padded", e.L("with_array2d", lin(e, o, i))), X, Y, [{}, {}, io], modes=ms, fwd=f)
        add(f"with_ragged of {lab}", "with_ragged", lambda e, o, i: e.L("with_ragged", e.L("with_array", lin(e, o, i))), X, Y, [{}, {}, io], modes=ms, fwd=f)
        add(f"with_list of {lab}", "with_list", lambda e, o, i: e.L("with_list", e.L("with_array", lin(e, o, i))), X, Y, [{}, {}, io], modes=ms, fwd=f)
    for how in ("mean", "max", "first", "last", "sum"):
        ls = [2, 1]
        add(f"reduce_{how} and Linear", f"reduce_{how}", lambda e, o, i, how=how: e.L("chain", e.L("list2ragged"), e.L(f"reduce_{how}"), lin(e, o, i)), lambda e: e.lists("x", ls, 2), lambda e: e.X("y", 2, 3), [{"nO": 3}, {}, {}, io], modes=("X and Y", "X"),
            fwd=lambda c, X, how=how: None)
    add("attention and pooling", "parametricattention", lambda e, o, i: e.L("chain", e.L("list2ragged"), e.L("ParametricAttention"), e.L("reduce_sum"), e.L("Softmax", o)), lambda e: e.lists("x", [2, 1], 2), lambda e: e.X("y", 2, 3), [{"nO": 3}, {}, {"nO": 2}, {}, io], modes=("X and Y", "X"))
    add("expand_window and Maxout", "expand_window", lambda e, o, i: e.L("chain", e.L("expand_window", 1), e.L("Maxout", o)), xa, ya, [{"nO": 3}, {}, {"nO": 3, "nI": 6}], modes=("X and Y", "X"))
    return out


# ---- initializers -----------------------------------------------------------

INITS = "thinc/initializers.py"


LAWS = {
    "glorot_uniform_init": GLOROT_U,
    "glorot_normal_init": ("normal", lambda sh: (F(0), scale(2, sh[0] + sh[1]))),
    "he_uniform_init": HE_U,
    "he_normal_init": HE_N,
    "lecun_uniform_init": ("uniform", lambda sh: (-scale(3, sh[1]), scale(3, sh[1]))),
    "lecun_normal_init": ("normal", lambda sh: (F(0), scale(1, sh[1]))),
    "uniform_init": TENTH,
    "normal_init": ("normal", lambda sh: (F(0), scale(1, sh[1]))),
    "zero_init": ZERO,
}
SHAPES = [(2, 3), (3, 2), (4, 1), (2, 3, 2), (1, 5)]
SETTINGS = [("uniform_init", dict(lo=F(-3, 10), hi=F(7, 10)), ("uniform", lambda sh: (F(-3, 10), F(7, 10)))), ("uniform_init", dict(lo=F(1, 5)), ("uniform", lambda sh: (F(1, 5), F(1, 10)))), ("uniform_init", dict(hi=F(2, 5)), ("uniform", lambda sh: (F(-1, 10), F(2, 5))))]


def rule_initializers(p, ck):
    ck.rule("distribution", "Every initializer, also as configured through the registry, with and without settings, for matrices and higher shapes of fan-in below, above and equal to fan-out and with the operations of both backends, fills "
            "an array of the asked shape, of 32-bit floats on the device, with one independent draw per cell from the documented distribution.", minimum=20)
    plans = [(n, {}, w) for n, w in LAWS.items()] + SETTINGS
    for kind in ("numpy", "cupy"):
        for n, kw, what in plans:
            for sh in SHAPES + ([(3,), (0, 2)] if n in ("uniform_init", "zero_init") else []):
                for how in ("called", "configured"):
                    e = Net(kind)

                    def f(e):
                        if how == "called":
                            v = e.run(e.get(INITS, n), e.ops, sh, **kw)
                        else:
                            v = e.run(e.run(e.get(INITS, "configure_" + n), **kw), e.ops, sh)
                        if not isinstance(v, Arr):
                            return f"gives {kind_of(v)}, not an array"
                        if tuple(v.shape) != sh or v.dtype.name != "float32" or v.dev != e.dev:
                            return f"gives an array of shape {tuple(v.shape)}, {v.dtype.name}, on {v.dev}; {sh}, float32 on {e.dev} expected"
                        return drawn(e, v, what)
                    r = run(e, f)
                    tag = f"{kind} {n} {how} shape {sh}" + "".join(f" {k}={float(x)}" for k, x in kw.items())
                    if r[0] == "unsup":
                        ck.unit("scenarios not read")
                        ck.units.setdefault("not read", {}).setdefault(f"{tag}: {r[1]}"[:140], 0)
                        continue
                    ck.instance("distribution", tag)
                    text = f"raises {r[1]}: {r[2]}" if r[0] == "raise" else r[1]
                    if text:
                        ck.anchor = f"{INITS}:{n}"
                        ck.finding("distribution", Node(INITS, 1), f"{tag}: {text}", construct=n, key=how + ": " + text.split(",")[0])
                        ck.anchor = None


HOW = ("Every layer is built with its dimensions unset, with the output or the input dimension set and with both, and initialised with the sample data that leaves to be inferred, from arrays, lists, Ragged and Padded. ")


def judge(ck, rule, aspects, kinds=("numpy",)):
    for kind in kinds:
        for sc, mode, found, r in results(kind):
            tag = f"{kind} {sc.name}, initialised with {mode}"
            if r[0] == "unsup":
                ck.unit("scenarios not read")
                ck.units.setdefault("not read", {}).setdefault(f"{tag}: {r[1]}"[:140], 0)
                continue
            ck.instance(rule, tag)
            for a, text in found:
                if a not in aspects:
                    continue
                base = sc.name.split("(")[0].split(" ")[0]
                ck.anchor = f"{sc.file}:{base}"
                ck.finding(rule, Node(sc.file, 1), f"{tag}: {text}", construct=base, key=a)
                ck.anchor = None


def rule_initialise(p, ck):
    ck.rule("initialised", HOW + "Afterwards every node has the expected dimensions; every parameter is set, in 32-bit floats; the output has "
            "the shape of the sample output and the cells of the documented definition over the parameters; the sample data is as before; initialising again changes nothing.", minimum=100)
    judge(ck, "initialised", ("dims", "params", "output", "again", "intact", "raise"), ("numpy", "cupy"))


RESIZABLE = LAY + "resizable.py"


def rule_resize(p, ck):
    ck.rule("resized", "resize_model on a resizable layer, initialised, with only some dimensions or none, for several old and new widths, with and without given fill values and with the operations of both backends: the first rows of every parameter "
            "are those of before, the new ones hold the fill value, the dimensions agree, the layer given is unchanged, and the model computes the definition with the new width; the same width changes nothing; a layer "
            "that is not initialised yet takes the new width when it is.", minimum=12)
    for kind in ("numpy", "cupy"):
        for n in ("Linear", "Softmax_v2"):
            for old, new in ((2, 3), (1, 4), (2, 2)):
                for fills in (None, {"b": F(3, 4)}, {"W": F(1, 2), "b": F(-5, 2)}):
                    tag = f"{kind} {n} from {old} to {new}, fill {sorted(fills) if fills else 'default'}"
                    out = []

                    def f(e):
                        inner = e.L(n, old, 2)
                        how = e.get(RESIZABLE, "resize_linear_weighted")
                        m = e.L("resizable", inner, (lambda layer, nO: e.run(how, layer, nO, fill_defaults=dict(fills))) if fills else how)
                        e.do(m, "initialize")
                        e.symbols(m)
                        was = {q: clone(e.do(inner, "get_param", q)) for q in ("W", "b")}
                        m2 = e.run(e.get(RESIZABLE, "resize_model"), m, new)
                        for q in ("W", "b"):
                            r = same(e.do(inner, "get_param", q), was[q], f"parameter {q}")
                            if r:
                                out.append(f"the layer that was resized is changed: {r}")
                        if int(e.do(inner, "get_dim", "nO")) != old:
                            out.append("the width of the layer that was resized is changed")
                        lay = e.attr(m2, "layers")[0]
                        if len(e.attr(m2, "layers")) != 1:
                            out.append("the model has more than the resized layer")
                        d = {k: int(e.do(lay, "get_dim", k)) for k in ("nO", "nI")}
                        if d != {"nO": new, "nI": 2}:
                            out.append(f"the dimensions are {d}")
                        want = {}
                        for q in ("W", "b"):
                            w = np.empty((new,) + was[q].shape[1:], object)
                            w[...] = F((fills or {}).get(q, 0))
                            w[:old] = was[q].d
                            want[q] = w
                            r = out_differs(e.do(lay, "get_param", q), w, f"parameter {q}")
                            if r:
                                out.append(r)
                        X = e.X("x", 2, 2)
                        Y, _ = e.run(m2, X, False)
                        y = affine(X.d, want["W"], want["b"])
                        r = out_differs(Y, y if n == "Linear" else softmax(y))
                        if r:
                            out.append(r)
                    settle(ck, "resized", RESIZABLE, "resize_model", tag, Net(kind), f, out)
        for given in ({}, {"nI": 2}, {"nO": 2}):
            tag = f"{kind} Linear not initialised, {given or 'nothing'} known"
            out = []

            def f(e):
                inner = e.L("Linear", given.get("nO"), given.get("nI"))
                m = e.L("resizable", inner, e.get(RESIZABLE, "resize_linear_weighted"))
                e.run(e.get(RESIZABLE, "resize_model"), m, 4)
                e.do(m, "initialize", X=e.X("x", 3, 2))
                r = unfit(e, e.attr(m, "layers")[0], [{"nO": 4, "nI": 2}])
                if r:
                    out.append(r)
                Y, _ = e.run(m, e.X("z", 3, 2), False)
                if tuple(Y.shape) != (3, 4):
                    out.append(f"the output has shape {tuple(Y.shape)}, (3, 4) expected")
            settle(ck, "resized", RESIZABLE, "resize_model", tag, Net(kind), f, out)


def settle(ck, rule, file, anchor, tag, e, f, out):
    """Run one scenario and report what it found."""
    r = run(e, f)
    A.dmemo.clear()
    A.points.clear()
    if r[0] == "unsup":
        ck.unit("scenarios not read")
        ck.units.setdefault("not read", {}).setdefault(f"{tag}: {r[1]}"[:140], 0)
        return
    ck.instance(rule, tag)
    if r[0] == "raise":
        out.append(f"raises {r[1]}: {r[2]}")
    elif r[0] == "viol":
        out.append(r[1])
    ck.anchor = f"{file}:{anchor}"
    for text in out:
        ck.finding(rule, Node(file, 1), f"{tag}: {text}", construct=anchor, key=rule)
    ck.anchor = None


def rule_l02(p, ck):
    ck.rule("cells: initialised", HOW + "Afterwards every node has the expected dimensions, every parameter is set, the output fits the sample output, and initialising again changes nothing.", minimum=1)
    judge(ck, "cells: initialised", ("dims", "params", "output", "again", "raise"))


def rule_values(p, ck):
    ck.rule("initial values", HOW + "The cells of every parameter are what the given initializer returned for it, or independent draws from the documented default distribution, or the documented zeros or ones.", minimum=50)
    judge(ck, "initial values", ("values",), ("numpy", "cupy"))


def rule_l01(p, ck):
    ck.rule("cells: initializers", HOW + "The cells of every parameter are what the initializer given for it returned.", minimum=1)
    judge(ck, "cells: initializers", ("values",))


CACHE = {}


def control(kind):
    """Wrong sizes, values and outputs have to be reported."""
    wrong = [("dims", dict(dims=[{"nO": 4, "nI": 2}])), ("values", dict(values={"W": ZERO})), ("output", dict(fwd=lambda c, X: 2 * Lin(X.d, c)))]
    for a, k in wrong:
        found = []
        r = examine(I("Linear", "linear", lambda e, o, i: e.L("Linear", o, i), x2(4, 2), lambda e: e.X("y", 4, 3), k.pop("dims", [{"nO": 3, "nI": 2}]), **k), "X and Y", kind, found)
        if a not in [x for x, _ in found]:
            raise RuntimeError(f"the control is not reported: {a} {r}")


def results(kind="numpy"):
    if kind not in CACHE:
        control(kind)
        CACHE[kind] = []
        for sc in scenarios():
            for mode in sc.modes:
                found = []
                CACHE[kind].append((sc, mode, found, examine(sc, mode, kind, found)))
    return CACHE[kind]
