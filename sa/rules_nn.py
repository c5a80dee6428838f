"""Rules on whole layers, decided cell by cell: what a layer computes, the
gradients it gives, what it leaves alone, and how it is initialised."""
from fractions import Fraction

import numpy as np

from .cellval import A, P, UNINIT, Unsup, close, show
from .cellarr import Arr
from .cellint import Obj
from .cellscen import Node, arr, run
from .nnscen import LAYERS, TYPES, Net, cells_differ, clone, contract, dcells, hashes, kind_of, leaves, like, structure, used_cells
from .nnspec import (ACT, D, F, OneOf, R, affine, attention, cat, cauchy, dropped, each, hcat, layernorm, lens, lstm, maxout, per_seq, plus, pool, seqs, sigmoid, softmax,
                     tab, window)
from .nnspec import like as rows

LAY = "thinc/layers/"


class C:
    """Parameters of a model, in the order it is walked."""

    def __init__(self, e, m):
        self.t = {}
        for nd, p, v in e.params(m):
            self.t.setdefault(p, []).append(v.d.copy())

    def p(self, n, k=0):
        return self.t[n][k]


class Sc:
    def __init__(self, name, file, build, X, fwd=None, train=(True, False), surrogate=None, grad=True, init=True, keep=(), Y=None, wit=None, ints=False, kinds=("numpy",), repeat=True, raises=False, sample=True, after=None):
        self.name, self.file, self.build, self.X, self.fwd, self.train = name, LAY + file + ".py", build, X, fwd, train
        self.surrogate, self.grad, self.init, self.keep, self.Y, self.wit, self.ints, self.kinds = surrogate, grad, init, keep, Y, wit, ints, kinds
        self.repeat = repeat
        self.raises = raises
        self.sample = sample
        self.after = after


def out_differs(got, want, path="the output"):
    """None, or how a value differs from the expected one."""
    if want is None:
        return None
    if isinstance(want, R):
        if not isinstance(got, Obj) or got.cls.name != "Ragged":
            return f"{path} is {kind_of(got)}, Ragged expected"
        ls = [int(x) for x in got.at["lengths"].d]
        if ls != [int(x) for x in want.lengths]:
            return f"{path} has lengths {ls}, {list(want.lengths)} expected"
        return out_differs(got.at["data"], want.data, path + ".data")
    if isinstance(want, D):
        if not isinstance(got, Obj) or got.cls.name != "Padded":
            return f"{path} is {kind_of(got)}, Padded expected"
        for k in ("size_at_t", "lengths", "indices"):
            r = cells_differ(got.at[k], want.like.at[k].d, f"{path}.{k}")
            if r:
                return r
        w = want.data.copy()
        for b, n in enumerate(lens(want.like)):
            w[n:, b] = None
        return out_differs(got.at["data"], w, path + ".data")
    if isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)) or len(got) != len(want):
            return f"{path} is {kind_of(got)}, a sequence of {len(want)} expected"
        for i, (g, w) in enumerate(zip(got, want)):
            r = out_differs(g, w, f"{path}[{i}]")
            if r:
                return r
        return None
    if not isinstance(got, Arr):
        return f"{path} is {kind_of(got)}, not an array"
    if tuple(got.shape) != tuple(want.shape):
        return f"{path} has shape {tuple(got.shape)}, {tuple(want.shape)} expected"
    for i in np.ndindex(*want.shape):
        g, w = got.d[i], want[i]
        if w is None:
            continue
        ix = ",".join(map(str, i))
        if g is UNINIT:
            return f"{path}[{ix}] is never written"
        if isinstance(w, OneOf):
            if not any(close(g, x) for x in w.xs):
                return f"{path}[{ix}] is {show(g)}, which is none of " + ", ".join(show(x) for x in w.xs)
        elif not close(g, w):
            return f"{path}[{ix}] is {show(g)}, {show(w)} expected"
    return None


def same(a, b, path):
    """None, or where two values differ, cell by cell."""
    if type(a) is not type(b):
        return f"{path} is {kind_of(a)} and was {kind_of(b)}"
    if isinstance(a, Arr):
        if a.shape != b.shape:
            return f"{path} has shape {tuple(a.shape)} and had {tuple(b.shape)}"
        for i in np.ndindex(*a.shape):
            x, y = a.d[i], b.d[i]
            if (x is UNINIT) != (y is UNINIT) or (x is not UNINIT and x is not y and not close(x, y)):
                return f"{path}[{','.join(map(str, i))}] is {show(x)} and was {show(y)}"
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{path} has {len(a)} items and had {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, f"{path}[{i}]")
            if r:
                return r
        return None
    if isinstance(a, Obj) and a.cls.name in ("Ragged", "Padded", "Pairs"):
        for k in b.at:
            if not k.startswith("_"):
                r = same(a.at.get(k), b.at[k], f"{path}.{k}")
                if r:
                    return r
    return None


def state(e, m):
    """What a model holds, apart from gradients."""
    out = {}
    for k, nd in enumerate(e.nodes(m)):
        t = {"dims": dict(nd.at["_dims"]), "layers": [id(x) for x in nd.at["_layers"]], "refs": {n: id(x) for n, x in nd.at["_refs"].items()},
             "attrs": {n: (v if isinstance(v, (int, float, str, bool, tuple, Fraction)) or v is None else id(v)) for n, v in nd.at["_attrs"].items()}}
        for what, v in t.items():
            out[f"{what} of {nd.at['name']} ({k})"] = v
    return out


ASPECTS = ("forward", "shape", "input", "param", "intact", "again", "state", "mode", "init")


def examine(sc, tr, kind, out):
    """Runs one scenario; appends (aspect, text) for what is wrong."""
    def f(e):
        m = sc.build(e)
        X = sc.X(e)
        if sc.init:
            kw = {"X": clone(X)} if sc.sample else {}
            if sc.Y:
                kw["Y"] = sc.Y(e)
            e.do(m, "initialize", **kw)
        e.symbols(m, sc.keep)
        if sc.after:
            sc.after(e, m)
        params = [(nd, p, clone(v)) for nd, p, v in e.params(m)]
        c = C(e, m)
        before = state(e, m)
        Xin = clone(X)
        Y, bp = e.run(m, Xin, tr)
        r = same(Xin, X, "the input")
        if r:
            out.append(("intact", f"the forward pass changes the caller's data: {r}"))
        if sc.fwd is not None:
            r = out_differs(Y, sc.fwd(c, X, tr))
            if r:
                out.append(("forward", r))
        Y0 = clone(Y)
        if not sc.grad:
            return None
        dY = like(e, Y, "g")
        dYin = clone(dY)
        dX = e.run(bp, dYin)
        dX0 = clone(dX)
        r = same(dYin, dY, "the gradient")
        if r:
            out.append(("intact", f"the backward pass changes the gradient it was given: {r}"))
        r = same(Xin, X, "the input")
        if r:
            out.append(("intact", f"the backward pass changes the caller's data: {r}"))
        for (nd, p, v), (_, _, w) in zip(e.params(m), params):
            r = same(v, w, f"parameter {p}")
            if r:
                out.append(("intact", f"the layer changes its parameters: {r}"))
        r = structure(dX, X, "the gradient of the input") if not sc.ints else None
        if r:
            out.append(("shape", r))
            return None
        L = contract(sc.surrogate(c, X, Y0, tr) if sc.surrogate else Y0, dY)
        for (pa, a), (_, g) in zip(leaves(X), leaves(dX)):
            if a.dtype.kind != "f":
                continue
            r = cells_differ(g, dcells(L, a), "the gradient of the input" + pa)
            if r:
                out.append(("input", r))
        gs = []
        for nd, p, v in e.params(m):
            g = e.pgrad(nd, p)
            gs.append(None if g is None else clone(g))
            if p in sc.keep:
                continue
            w = dcells(L, v)
            if g is None:
                if any(isinstance(x, P) or x for x in w.ravel()):
                    out.extend((a, f"parameter {p} of {nd.at['name']} gets no gradient") for a in ("param", "count"))
                continue
            r = cells_differ(g, w, f"the gradient of {p} of {nd.at['name']}")
            if r:
                out.append(("param", r))
                for k in (0, 2, 3):
                    if not cells_differ(g, each(w, lambda x: None if x is None else k * x), ""):
                        out.append(("count", f"parameter {p} of {nd.at['name']} gets {k} times its gradient"))
        if sc.repeat:
            dX2 = e.run(bp, clone(dY))
            r = same(dX2, dX0, "the gradient")
            if r:
                out.append(("again", f"a second call of the same callback gives something else: {r}"))
            for (nd, p, v), g in zip(e.params(m), gs):
                g2 = e.pgrad(nd, p)
                if (g is None) != (g2 is None) or g is not None and cells_differ(g2, each(g.d, lambda x: 2 * x), p):
                    out.append(("again", f"after a second call of the callback the gradient of {p} of {nd.at['name']} is not twice that of one call"))
            r = same(Y, Y0, "the output")
            if r:
                out.append(("again", f"the backward pass changes the output: {r}"))
        after = state(e, m)
        for k, v in before.items():
            if after.get(k) != v:
                out.append(("state", f"the {k} changed in the course of a forward and backward pass"))
        return None

    e = Net(kind, wit=sc.wit)
    r = run(e, f)
    A.dmemo.clear()
    A.points.clear()
    if r[0] == "raise" and not sc.raises:
        out.append(("raise", f"raises {r[1]}: {r[2]}"))
    elif r[0] == "viol":
        out.append(("forward", r[1] + (f" ({r[2]})" if r[2] else "")))
    return r


# ---- scenarios --------------------------------------------------------------

def L(name, *a, **k):
    return lambda e: e.L(name, *a, **k)


def x2(*shape):
    return lambda e: e.X("x", *shape)


def lin(e, nO=2, nI=2):
    return e.L("Linear", nO, nI)


def Lin(x, c, k=0):
    return affine(x, c.p("W", k), c.p("b", k))


def seq_inputs(width=2, lengths=(2, 1), empty=True):
    """Every kind of sequence."""
    ls = list(lengths)
    out = [("lists", lambda e: e.lists("x", ls, width)), ("Ragged", lambda e: e.ragged("x", ls, width)), ("Padded", lambda e: e.padded("x", [1, 2], width))]
    if empty:
        out.append(("lists with an empty one", lambda e: e.lists("x", [1, 0, 2], width)))
        out.append(("Ragged with an empty sequence", lambda e: e.ragged("x", [1, 0, 2], width)))
    return out


def spread(name, idx, i):
    """Values on both sides of the turning points."""
    return Fraction(((-1) ** i) * (2 + 5 * (i % 4)), 9)


FILES = {"Linear": "linear", "Relu": "relu", "Mish": "mish", "Gelu": "gelu", "Swish": "swish", "Sigmoid": "sigmoid", "HardSwish": "hard_swish", "HardSwishMobilenet": "hard_swish_mobilenet",
         "ClippedLinear": "clipped_linear", "ReluK": "clipped_linear", "HardSigmoid": "clipped_linear", "HardTanh": "clipped_linear", "Maxout": "maxout", "Dish": "dish"}


def scenarios():
    out = []

    def add(name, file, build, X, fwd=None, **k):
        out.append(Sc(name, file, build, X, fwd, **k))

    # feed-forward layers and their options
    for n, f in ACT.items():
        def fw(c, X, tr, f=f):
            return each(affine(X.d, c.p("W"), c.p("b")), f)
        for w, wit in (("", None), (" (values of both signs)", spread)):
            add(n + w, FILES[n], L(n, 2, 3), x2(2, 3), fw, wit=wit)
        add(n + " on an empty batch", FILES[n], L(n, 2, 3), x2(0, 3), fw)
        if n in ("Linear", "Sigmoid"):
            continue

        def fwn(c, X, tr, fw=fw):
            return layernorm(fw(c, X, tr), c.p("G"), c.p("b", 1))

        def fwd_(c, X, tr, fw=fw):
            y = fw(c, X, tr)
            return dropped(y, F(1, 4)) if tr else y
        if n == "Dish":         # the terms of the gradient grow beyond reach
            add(n + "(normalize)", FILES[n], L(n, 2, 2, normalize=True), x2(2, 2), fwn, grad=False)
        else:
            add(n + "(normalize)", FILES[n], L(n, 2, 2, normalize=True), x2(2, 2), fwn, wit=spread if n != "Relu" else None, train=(True,))
        add(n + "(dropout)", FILES[n], L(n, 2, 3, dropout=F(1, 4)), x2(2, 3), fwd_)
    for n, k in (("ClippedLinear", dict(slope=F(3), offset=F(1, 2), min_val=F(-1), max_val=F(2))), ("ReluK", dict(k=F(2)))):
        def fw(c, X, tr, k=k):
            lo, hi = k.get("min_val", F(0)), k.get("max_val", k.get("k"))
            return each(affine(X.d, c.p("W"), c.p("b")), lambda v: min(max(v * k.get("slope", 1) + k.get("offset", 0), lo), hi))
        add(n + " with settings", "clipped_linear", L(n, 2, 3, **k), x2(2, 3), fw, wit=spread)
    for w, wit in (("", None), (" (values of both signs)", spread)):
        add("Maxout" + w, "maxout", L("Maxout", 2, 2, 3), x2(2, 2), lambda c, X, tr: maxout(X.d, c.p("W"), c.p("b")), wit=wit)
    add("Maxout(nP=1)", "maxout", L("Maxout", 2, 2, 1), x2(2, 2), lambda c, X, tr: maxout(X.d, c.p("W"), c.p("b")))
    add("Maxout(normalize, dropout)", "maxout", L("Maxout", 2, 2, 2, normalize=True, dropout=F(1, 2)), x2(2, 2),
        lambda c, X, tr: (lambda y: dropped(y, F(1, 2)) if tr else y)(layernorm(maxout(X.d, c.p("W"), c.p("b")), c.p("G"), c.p("b", 1))), wit=spread)

    # softmax layers: they take the gradient of the loss for the logits
    def logits(t=1):
        return lambda c, X, Y, tr: each(affine(X.d, c.p("W"), c.p("b")), lambda v: v * (F(1) / F(t)))
    add("Softmax", "softmax", L("Softmax", 2, 3), x2(2, 3), lambda c, X, tr: softmax(affine(X.d, c.p("W"), c.p("b"))), surrogate=lambda c, X, Y, tr: wrap(logits()(c, X, Y, tr)))
    add("Softmax_v2(temperature)", "softmax", L("Softmax_v2", 2, 3, temperature=F(2)), x2(2, 3), lambda c, X, tr: softmax(affine(X.d, c.p("W"), c.p("b")), 2), surrogate=lambda c, X, Y, tr: wrap(logits(2)(c, X, Y, tr)))
    add("Softmax_v2(normalize_outputs=False)", "softmax", L("Softmax_v2", 2, 3, normalize_outputs=False), x2(2, 3),
        lambda c, X, tr: softmax(affine(X.d, c.p("W"), c.p("b"))) if tr else affine(X.d, c.p("W"), c.p("b")), train=(True,), surrogate=lambda c, X, Y, tr: wrap(logits()(c, X, Y, tr)))
    add("Softmax_v2(normalize_outputs=False), prediction", "softmax", L("Softmax_v2", 2, 3, normalize_outputs=False), x2(2, 3), lambda c, X, tr: affine(X.d, c.p("W"), c.p("b")), train=(False,), grad=False)
    add("MultiSoftmax", "multisoftmax", L("MultiSoftmax", (2, 1, 2), 2), x2(2, 2), lambda c, X, tr: (lambda y: hcat(softmax(y[:, :2]), softmax(y[:, 2:3]), softmax(y[:, 3:])))(affine(X.d, c.p("W"), c.p("b"))),
        surrogate=lambda c, X, Y, tr: wrap(logits()(c, X, Y, tr)))
    add("softmax_activation", "softmax_activation", L("softmax_activation"), x2(2, 3), lambda c, X, tr: softmax(X.d))
    add("sigmoid_activation", "sigmoid_activation", L("sigmoid_activation"), x2(2, 3), lambda c, X, tr: each(X.d, sigmoid))
    add("Logistic", "logistic", L("Logistic"), x2(2, 3), lambda c, X, tr: each(X.d, sigmoid))
    add("LayerNorm", "layernorm", L("LayerNorm", 3), x2(2, 3), lambda c, X, tr: layernorm(X.d, c.p("G"), c.p("b")), wit=spread)

    # dropout
    for lab, X in [("array", x2(2, 3)), ("3d array", x2(2, 1, 2))] + seq_inputs():
        add(f"Dropout on {lab}", "dropout", L("Dropout", F(1, 4)), X, lambda c, X, tr: rows(X, lambda x: dropped(x, F(1, 4)) if tr else x), repeat=True)
        add(f"Dropout(0) on {lab}", "dropout", L("Dropout", F(0)), X, lambda c, X, tr: rows(X, lambda x: x))

    # sequences
    for lab, X in seq_inputs():
        pd = "Padded" in lab
        if not pd:
            add(f"with_array(Linear) on {lab}", "with_array", lambda e: e.L("with_array", lin(e)), X, lambda c, X, tr: rows(X, lambda x: Lin(x, c)))
        add(f"with_array2d(Linear) on {lab}", "with_array2d", lambda e: e.L("with_array2d", lin(e)), X, lambda c, X, tr: rows(X, lambda x: Lin(x, c)))
        add(f"with_padded(with_array2d(Linear)) on {lab}", "with_padded", lambda e: e.L("with_padded", e.L("with_array2d", lin(e))), X, lambda c, X, tr: rows(X, lambda x: Lin(x, c)))
        add(f"with_ragged(expand_window) on {lab}", "with_ragged", lambda e: e.L("with_ragged", e.L("expand_window", 1)), X, lambda c, X, tr: per_seq(X, window))
        add(f"with_list(map_list(expand_window)) on {lab}", "with_list", lambda e: e.L("with_list", e.L("map_list", e.L("expand_window", 1))), X, lambda c, X, tr: per_seq(X, window))
        if not pd:
            add(f"residual(with_array(Linear)) on {lab}", "residual", lambda e: e.L("residual", e.L("with_array", lin(e))), X, lambda c, X, tr: rows(X, lambda x: x + Lin(x, c)))
        else:
            add(f"residual(with_array2d(Linear)) on {lab}", "residual", lambda e: e.L("residual", e.L("with_array2d", lin(e))), X, lambda c, X, tr: rows(X, lambda x: x + Lin(x, c)))
        if not pd:
            add(f"concatenate on {lab}", "concatenate", lambda e: e.L("concatenate", e.L("with_array", lin(e, 1)), e.L("with_array", lin(e, 2)), e.L("with_array", lin(e, 1))), X,
                lambda c, X, tr: rows(X, lambda x: hcat(Lin(x, c), Lin(x, c, 1), Lin(x, c, 2))))
            add(f"with_ragged(ParametricAttention) on {lab}", "parametricattention", lambda e: e.L("with_ragged", e.L("ParametricAttention")), X,
                lambda c, X, tr: per_seq(X, lambda x: x if not len(x) else attention1(x, c.p("Q"))))
    add("with_array(expand_window, pad=1) on lists", "with_array", lambda e: e.L("with_array", e.L("expand_window", 1), pad=1), lambda e: e.lists("x", [2, 1], 2), lambda c, X, tr: per_seq(X, window))
    add("with_array2d(expand_window, pad=1) on lists", "with_array2d", lambda e: e.L("with_array2d", e.L("expand_window", 1), pad=1), lambda e: e.lists("x", [2, 0, 1], 2), lambda c, X, tr: per_seq(X, window))
    for n in ("with_array", "with_array2d"):
        add(f"{n}(Linear) on an array", n, lambda e, n=n: e.L(n, lin(e)), x2(2, 2), lambda c, X, tr: Lin(X.d, c))
    columns = lambda X, f: np.stack([f(X.d[:, k]) for k in range(X.shape[1])], axis=1)

    def in_tuple(X, f):
        out = np.empty(X[0].shape[:2] + (f(X[0].d[:1, 0]).shape[-1],), object)
        out[...] = None
        for k, n in enumerate(X[2].d):
            out[:int(n), k] = f(X[0].d[:int(n), k])
        return (out, X[1].d, X[2].d, X[3].d)
    inner = (("with_ragged(expand_window)", lambda e: e.L("with_ragged", e.L("expand_window", 1)), lambda c: window),
             ("with_list(map_list(Linear))", lambda e: e.L("with_list", e.L("map_list", lin(e))), lambda c: lambda x: Lin(x, c)),
             ("bidirectional(with_ragged(expand_window))", lambda e: e.L("bidirectional", e.L("with_ragged", e.L("expand_window", 1))), lambda c: lambda x: hcat(window(x), window(x[::-1])[::-1])))
    for lab, mk, f in inner:
        for sh in ((3, 2, 2), (1, 3, 2)):
            add(f"with_padded({lab}) on a 3d array of {sh}", "with_padded", lambda e, mk=mk: e.L("with_padded", mk(e)), x2(*sh), lambda c, X, tr, f=f: columns(X, f(c)))
        for ls in ([1, 3], [2, 1, 2]):
            add(f"with_padded({lab}) on a tuple of {ls}", "with_padded", lambda e, mk=mk: e.L("with_padded", mk(e)), lambda e, ls=ls: padded_tuple(e, ls), lambda c, X, tr, f=f: in_tuple(X, f(c)))
        for ls in ([2, 1, 2, 1], [1, 3]):
            add(f"with_padded({lab}) on {len(ls)} lists", "with_padded", lambda e, mk=mk: e.L("with_padded", mk(e)), lambda e, ls=ls: e.lists("x", ls, 2), lambda c, X, tr, f=f: per_seq(X, f(c)))
            add(f"with_padded({lab}) on a Ragged of {len(ls)}", "with_padded", lambda e, mk=mk: e.L("with_padded", mk(e)), lambda e, ls=ls: e.ragged("x", ls, 2), lambda c, X, tr, f=f: per_seq(X, f(c)))
    for n, kinds in (("with_list", "lists Ragged"), ("with_ragged", "lists Ragged"), ("with_array", "lists Ragged"), ("with_array2d", "lists Ragged Padded")):
        for k in kinds.split():
            X = {"lists": lambda e: e.lists("x", [2, 1, 2, 1], 2), "Ragged": lambda e: e.ragged("x", [2, 1, 2, 1], 2), "Padded": lambda e: e.padded("x", [2, 1, 2, 1], 2)}[k]
            add(f"{n}(Linear) on 4 sequences as {k}", n, lambda e, n=n: e.L(n, {"with_list": lambda: e.L("map_list", lin(e)), "with_ragged": lambda: e.L("with_array", lin(e))}.get(n, lambda: lin(e))()), X, lambda c, X, tr: rows(X, lambda x: Lin(x, c)))
    for n in ("with_array", "with_array2d"):
        add(f"{n}(expand_window(2), pad=2) on lists", n, lambda e, n=n: e.L(n, e.L("expand_window", 2), pad=2), lambda e: e.lists("x", [2, 1, 3], 1), lambda c, X, tr: per_seq(X, lambda x: window(x, 2)))
        add(f"{n}(expand_window(1), pad=2) on lists", n, lambda e, n=n: e.L(n, e.L("expand_window", 1), pad=2), lambda e: e.lists("x", [1, 1, 2], 1), lambda c, X, tr: per_seq(X, window))
        add("with_padded on a 3d array", "with_padded", lambda e: e.L("with_padded", e.L("with_array2d", lin(e))), x2(2, 2, 2), lambda c, X, tr: arr((2, 2, 2), lambda t, b, j: Lin(X.d[t, b:b + 1], c)[0, j]))
    add("with_padded on a tuple", "with_padded", lambda e: e.L("with_padded", e.L("with_array2d", lin(e))), lambda e: padded_tuple(e), lambda c, X, tr: (None,) * 4, grad=True)
    add("with_ragged on a tuple", "with_ragged", lambda e: e.L("with_ragged", e.L("expand_window", 1)), lambda e: (e.X("x", 3, 2), e.N([2, 1])), lambda c, X, tr: (cat([window(X[0].d[:2]), window(X[0].d[2:])]), X[1].d))
    for ls in ([2, 1], [1, 0, 2]):
        s = "" if 0 not in ls else " with an empty sequence"
        add("list2ragged" + s, "list2ragged", L("list2ragged"), lambda e, ls=ls: e.lists("x", ls, 2), lambda c, X, tr: R(cat([x.d for x in X]), [len(x.d) for x in X]))
        add("ragged2list" + s, "ragged2list", L("ragged2list"), lambda e, ls=ls: e.ragged("x", ls, 2), lambda c, X, tr: seqs(X))
        add("list2array" + s, "list2array", L("list2array"), lambda e, ls=ls: e.lists("x", ls, 2), lambda c, X, tr: cat([x.d for x in X]))
        add("list2padded" + s, "list2padded", L("list2padded"), lambda e, ls=ls: e.lists("x", ls, 2), None)
        for how in ("sum", "mean"):
            add(f"reduce_{how}" + s, f"reduce_{how}", L(f"reduce_{how}"), lambda e, ls=ls: e.ragged("x", ls, 2), lambda c, X, tr, how=how: pool(X, how))
    add("padded2list", "padded2list", L("padded2list"), lambda e: e.padded("x", [1, 2], 2), lambda c, X, tr: seqs(X))
    for how in ("max", "first", "last"):
        for ls in ([2, 1], [1, 3]):
            add(f"reduce_{how} of {ls}", f"reduce_{how}", L(f"reduce_{how}"), lambda e, ls=ls: e.ragged("x", ls, 2), lambda c, X, tr, how=how: pool(X, how), wit=spread)
    for n in (1, 2):
        add(f"expand_window({n})", "expand_window", L("expand_window", n), x2(3, 2), lambda c, X, tr, n=n: window(X.d, n))
        add(f"expand_window({n}) on Ragged", "expand_window", L("expand_window", n), lambda e: e.ragged("x", [2, 0, 3], 1), lambda c, X, tr, n=n: per_seq(X, lambda x: window(x, n)))
    add("ParametricAttention", "parametricattention", L("ParametricAttention"), lambda e: e.ragged("x", [2, 1], 2), lambda c, X, tr: attention(X, c.p("Q")))
    add("ParametricAttention_v2", "parametricattention_v2", L("ParametricAttention_v2"), lambda e: e.ragged("x", [2, 1], 2), lambda c, X, tr: attention(X, c.p("Q")))
    add("ParametricAttention_v2(key_transform)", "parametricattention_v2", lambda e: e.L("ParametricAttention_v2", key_transform=lin(e)), lambda e: e.ragged("x", [2, 1], 2), lambda c, X, tr: attention(X, c.p("Q"), lambda d: Lin(d, c)))

    # combinators
    add("chain of three", "chain", lambda e: e.L("chain", lin(e, 2, 3), e.L("Mish", 1, 2), lin(e, 2, 1)), x2(2, 3), lambda c, X, tr: Lin(each(Lin(Lin(X.d, c), c, 1), ACT["Mish"]), c, 2), train=(True,))
    add("add of three", "add", lambda e: e.L("add", lin(e), e.L("Relu", 2, 2), lin(e)), x2(2, 2), lambda c, X, tr: Lin(X.d, c) + each(Lin(X.d, c, 1), ACT["Relu"]) + Lin(X.d, c, 2), wit=spread)
    add("concatenate of three", "concatenate", lambda e: e.L("concatenate", lin(e, 1), e.L("Relu", 2, 2), lin(e, 1)), x2(2, 2), lambda c, X, tr: hcat(Lin(X.d, c), each(Lin(X.d, c, 1), ACT["Relu"]), Lin(X.d, c, 2)), wit=spread)
    for n in ("concatenate",):
        add(f"{n} of one", n, lambda e, n=n: e.L(n, lin(e)), x2(2, 2), lambda c, X, tr: Lin(X.d, c))
    add("residual(Linear)", "residual", lambda e: e.L("residual", lin(e)), x2(2, 2), lambda c, X, tr: X.d + Lin(X.d, c))
    add("residual(Dropout)", "residual", lambda e: e.L("residual", e.L("Dropout", F(1, 4))), x2(2, 2), None)
    add("residual(noop)", "residual", lambda e: e.L("residual", e.L("noop")), x2(2, 2), lambda c, X, tr: X.d + X.d)
    add("chain(noop, residual(noop))", "chain", lambda e: e.L("chain", e.L("noop"), e.L("residual", e.L("noop"))), x2(2, 2), lambda c, X, tr: X.d + X.d)
    add("add(noop, noop)", "add", lambda e: e.L("add", e.L("noop"), e.L("noop")), x2(2, 2), lambda c, X, tr: X.d + X.d, init=False)
    add("concatenate(noop, noop)", "concatenate", lambda e: e.L("concatenate", e.L("noop"), e.L("noop")), x2(2, 2), lambda c, X, tr: hcat(X.d, X.d))
    for lab, X in seq_inputs(empty=False):
        add(f"residual(noop) on {lab}", "residual", lambda e: e.L("residual", e.L("noop")), X, lambda c, X, tr: rows(X, lambda x: x + x))
    add("noop", "noop", L("noop"), x2(2, 2), lambda c, X, tr: X.d)
    add("tuplify", "tuplify", lambda e: e.L("tuplify", lin(e), e.L("noop"), lin(e, 1)), x2(2, 2), lambda c, X, tr: (Lin(X.d, c), X.d, Lin(X.d, c, 1)))
    add("tuplify of lists", "tuplify", lambda e: e.L("tuplify", e.L("with_array", lin(e)), e.L("noop")), lambda e: e.lists("x", [2, 1], 2), lambda c, X, tr: ([Lin(x.d, c) for x in X], [x.d for x in X]))
    add("clone(Linear, 3)", "clone", lambda e: e.L("clone", lin(e), 3), x2(1, 2), lambda c, X, tr: Lin(Lin(Lin(X.d, c), c, 1), c, 2), train=(True,))
    add("map_list(Linear)", "map_list", lambda e: e.L("map_list", lin(e)), lambda e: e.lists("x", [2, 1, 2], 2), lambda c, X, tr: [Lin(x.d, c) for x in X])
    add("with_getitem(1, Linear)", "with_getitem", lambda e: e.L("with_getitem", 1, lin(e)), lambda e: (e.X("a", 1, 2), e.X("b", 2, 2), e.X("c", 1, 1)), lambda c, X, tr: (X[0].d, Lin(X[1].d, c), X[2].d))
    add("with_getitem(0, Linear)", "with_getitem", lambda e: e.L("with_getitem", 0, lin(e)), lambda e: (e.X("a", 1, 2), e.X("b", 2, 2)), lambda c, X, tr: (Lin(X[0].d, c), X[1].d))
    add("with_reshape(Linear)", "with_reshape", lambda e: e.L("with_reshape", lin(e, 3)), x2(2, 2, 2), lambda c, X, tr: arr((2, 2, 3), lambda i, t, j: Lin(X.d[i, t:t + 1], c)[0, j]))
    add("with_flatten(list2array of rows)", "with_flatten", lambda e: e.L("with_flatten", e.L("chain", e.L("list2array"), lin(e))), lambda e: [[e.X("a", 1, 2), e.X("b", 1, 2)], [e.X("c", 1, 2)]], None, grad=False)
    add("with_flatten_v2(map_list)", "with_flatten_v2", lambda e: e.L("with_flatten_v2", e.L("map_list", lin(e))), lambda e: [[e.X("a", 1, 2), e.X("b", 2, 2)], [], [e.X("c", 1, 2)]],
        lambda c, X, tr: [[Lin(x.d, c) for x in y] for y in X])
    add("array_getitem", "array_getitem", lambda e: e.L("array_getitem", (slice(None), slice(1, 3))), x2(2, 3), lambda c, X, tr: X.d[:, 1:3])
    add("floats_getitem of a column", "array_getitem", lambda e: e.L("array_getitem", (slice(None), 1)), x2(2, 3), lambda c, X, tr: X.d[:, 1])
    add("siamese", "siamese", lambda e: e.L("siamese", lin(e, 1, 2), e.L("CauchySimilarity", 1)), lambda e: (e.X("x", 2, 2), e.X("y", 2, 2)), lambda c, X, tr: cauchy(Lin(X[0].d, c), Lin(X[1].d, c), cauchy_w(c)))
    add("CauchySimilarity", "cauchysimilarity", L("CauchySimilarity", 2), lambda e: (e.X("x", 2, 2), e.X("y", 2, 2)), lambda c, X, tr: cauchy(X[0].d, X[1].d, cauchy_w(c)))
    add("resizable(Linear)", "resizable", lambda e: e.L("resizable", lin(e), None), x2(2, 2), lambda c, X, tr: Lin(X.d, c))
    add("bidirectional", "bidirectional", lambda e: e.L("bidirectional", e.L("with_array2d", lin(e))), lambda e: e.padded("x", [1, 2], 2), lambda c, X, tr: rows(X, lambda x: hcat(Lin(x, c), Lin(x, c, 1))))

    # recurrent
    for ls in ([1, 2], [2], [2, 3, 1]):
        add(f"bidirectional(expand_window) of {ls}", "bidirectional", lambda e: e.L("bidirectional", e.L("with_ragged", e.L("expand_window", 1))), lambda e, ls=ls: e.padded("x", ls, 1),
            lambda c, X, tr: per_seq(X, lambda x: hcat(window(x), window(x[::-1])[::-1])))
    add("bidirectional(LSTM)", "bidirectional", lambda e: e.L("bidirectional", e.L("LSTM", 1, 1)), lambda e: e.padded("x", [1, 2], 1), lambda c, X, tr: both(X, lstm(c, X, 1), lstm(c, backwards(X), 1, k=1)),
        train=(True,), after=lambda e, m: lstm_numbers(e, m, 1, 1, 1, 1))
    for nO, nI, ls, depth, dirs in ((1, 1, (1,), 1, 1), (1, 1, (2,), 1, 1), (1, 1, (1, 2), 1, 1), (2, 1, (2, 1), 1, 1), (1, 2, (1, 1), 1, 1), (1, 1, (1, 2), 1, 2), (1, 1, (1, 1), 2, 1), (1, 1, (2,), 2, 1), (1, 1, (1, 1), 2, 2)):
        for tr in (True, False):
            add(f"LSTM({nO}, {nI}, depth={depth}, directions={dirs}) of {list(ls)}", "lstm", L("LSTM", nO * dirs, nI, depth=depth, bi=dirs == 2), lambda e, ls=ls, nI=nI: e.padded("x", list(ls), nI),
                lambda c, X, tr, nO=nO, depth=depth, dirs=dirs: lstm(c, X, nO, depth, dirs), after=lambda e, m, a=(nO, nI, depth, dirs): lstm_numbers(e, m, *a), train=(tr,), grad=tr)
    pl = lambda e: e.L("with_padded", e.L("LSTM", 1, 1))
    one = lambda e, m: lstm_numbers(e, m, 1, 1, 1, 1)
    for ls in ([1, 2], [2]):
        add(f"with_padded(LSTM) on lists of {ls}", "with_padded", pl, lambda e, ls=ls: e.lists("x", ls, 1), lambda c, X, tr: lstm(c, X, 1), after=one, train=(True,))
    for sh in ((2, 1, 1), (1, 2, 1)):
        add(f"with_padded(LSTM) on a 3d array of {sh}", "with_padded", pl, x2(*sh), lambda c, X, tr: np.stack([y for y in lstm(c, [wrap(X.d[:, k]) for k in range(X.shape[1])], 1)], axis=1), after=one, train=(True,))
    add("LSTM(dropout)", "lstm", L("LSTM", 1, 1, dropout=F(1, 4)), lambda e: e.padded("x", [1, 1], 1), lambda c, X, tr: None if tr else lstm(c, X, 1), after=lambda e, m: lstm_numbers(e, m, 1, 1, 1, 1), train=(True,))

    # tables
    emb = lambda c, X, k=0: arr((X.shape[0], c.p("E", k).shape[1]), lambda i, j: c.p("E", k)[int(X.d[i]), j])
    drop = lambda y, r: arr(y.shape, lambda i, j: OneOf(F(0), y[i, j] * (1 / (1 - r))))
    add("Embed", "embed", L("Embed", 2, 4), lambda e: e.N([1, 0, 1, 3]), lambda c, X, tr: emb(c, X), ints=True)
    add("Embed of nothing", "embed", L("Embed", 2, 4), lambda e: e.N(np.zeros(0, int)), lambda c, X, tr: emb(c, X), ints=True)
    add("Embed(dropout)", "embed", L("Embed", 2, 4, dropout=F(1, 2)), lambda e: e.N([1, 0, 1]), lambda c, X, tr: drop(emb(c, X), F(1, 2)) if tr else emb(c, X), ints=True)
    add("Embed(column=1)", "embed", L("Embed", 2, 4, column=1), lambda e: e.N([[1, 2], [0, 3], [0, 2]]), lambda c, X, tr: emb(c, X[:, 1]), ints=True)
    def hemb(c, ids, seed, drop=None):
        E = c.p("E")
        t = hashes(ids, seed) % len(E) if len(ids) else np.zeros((0, 4), int)
        y = arr((len(ids), E.shape[1]), lambda i, j: sum((E[int(t[i, k]), j] for k in range(4)), F(0)))
        return y if drop is None else arr(y.shape, lambda i, j: OneOf(F(0), y[i, j] * (1 / (1 - drop))))
    add("HashEmbed", "hashembed", L("HashEmbed", 2, 5, seed=3), lambda e: e.N([1, 0, 1, 9], dt="uint64"), lambda c, X, tr: hemb(c, X.d, 3), ints=True)
    add("HashEmbed of nothing", "hashembed", L("HashEmbed", 2, 5, seed=3), lambda e: e.N(np.zeros(0, int), dt="uint64"), lambda c, X, tr: hemb(c, X.d, 3), ints=True)
    add("HashEmbed(dropout)", "hashembed", L("HashEmbed", 2, 4, seed=2, dropout=F(1, 2)), lambda e: e.N([1, 5], dt="uint64"), lambda c, X, tr: hemb(c, X.d, 2, F(1, 2) if tr else None), ints=True)
    for seed in (0, 7):
        add(f"HashEmbed(seed={seed}) of one id", "hashembed", L("HashEmbed", 2, 4, seed=seed, dropout=F(1, 2)), lambda e: e.N([5], dt="uint64"), lambda c, X, tr, seed=seed: hemb(c, X.d, seed, F(1, 2) if tr else None), ints=True)
    add("Embed(dropout) of one id", "embed", L("Embed", 2, 4, dropout=F(1, 2)), lambda e: e.N([2]), lambda c, X, tr: drop(emb(c, X), F(1, 2)) if tr else emb(c, X), ints=True)
    add("HashEmbed of ids past 32 bits", "hashembed", L("HashEmbed", 2, 5, seed=1), lambda e: e.N([2**33 + 1, 2**40 + 5, 1], dt="uint64"), lambda c, X, tr: hemb(c, X.d, 1), ints=True)
    add("Embed(column=0)", "embed", L("Embed", 2, 4, column=0), lambda e: e.N([[1, 2], [0, 3], [0, 2]]), lambda c, X, tr: emb(c, X[:, 0]), ints=True)
    add("HashEmbed(column=1)", "hashembed", L("HashEmbed", 2, 4, seed=3, column=1), lambda e: e.N([[1, 2], [0, 2], [4, 3]], dt="uint64"), lambda c, X, tr: hemb(c, X.d[:, 1], 3), ints=True)
    add("HashEmbed(column=0)", "hashembed", L("HashEmbed", 2, 4, seed=3, column=0), lambda e: e.N([[1, 2], [0, 2], [4, 3]], dt="uint64"), lambda c, X, tr: hemb(c, X.d[:, 0], 3), ints=True)
    add("uniqued(Embed)", "uniqued", lambda e: e.L("uniqued", e.L("Embed", 2, 4, column=0), column=0), lambda e: e.N([[1, 0], [3, 0], [1, 1]]), lambda c, X, tr: emb(c, X[:, 0]), ints=True)
    add("uniqued of one row", "uniqued", lambda e: e.L("uniqued", e.L("Embed", 2, 4, column=0), column=0), lambda e: e.N([[1, 0]]), lambda c, X, tr: emb(c, X[:, 0]), ints=True)

    # nothing at all
    none = lambda c, X, tr: []
    E0 = lambda e: []
    add("LayerNorm on an empty batch", "layernorm", L("LayerNorm", 3), x2(0, 3), lambda c, X, tr: layernorm(X.d, c.p("G"), c.p("b")))
    add("Maxout on an empty batch", "maxout", L("Maxout", 2, 3, 2), x2(0, 3), lambda c, X, tr: arr((0, 2), None))
    add("Softmax on an empty batch", "softmax", L("Softmax", 2, 3), x2(0, 3), lambda c, X, tr: arr((0, 2), None))
    add("MultiSoftmax on an empty batch", "multisoftmax", L("MultiSoftmax", (1, 2), 3), x2(0, 3), lambda c, X, tr: arr((0, 3), None))
    add("expand_window on an empty batch", "expand_window", L("expand_window", 2), x2(0, 3), lambda c, X, tr: arr((0, 15), None))
    add("Dropout on an empty batch", "dropout", L("Dropout", F(1, 4)), x2(0, 3), lambda c, X, tr: arr((0, 3), None))
    for n in ("softmax_activation", "sigmoid_activation", "Logistic"):
        add(n + " on an empty batch", n.lower(), L(n), x2(0, 3), lambda c, X, tr: arr((0, 3), None))
    add("map_list of no arrays", "map_list", lambda e: e.L("map_list", lin(e)), E0, none, sample=False)
    add("list2ragged of no sequences", "list2ragged", L("list2ragged"), E0, None)
    add("list2array of no sequences", "list2array", L("list2array"), E0, None)
    add("list2padded of no sequences", "list2padded", L("list2padded"), E0, None)
    for ls in ([0], [0, 0]):
        add(f"with_array(Linear) of {len(ls)} empty", "with_array", lambda e: e.L("with_array", lin(e)), lambda e, ls=ls: e.lists("x", ls, 2), lambda c, X, tr: [Lin(x.d, c) for x in X])
        add(f"with_padded of {len(ls)} empty", "with_padded", lambda e: e.L("with_padded", e.L("with_array2d", lin(e))), lambda e, ls=ls: e.lists("x", ls, 2), lambda c, X, tr: [Lin(x.d, c) for x in X])
        add(f"reduce_sum of {len(ls)} empty", "reduce_sum", L("reduce_sum"), lambda e, ls=ls: e.ragged("x", ls, 2), lambda c, X, tr: pool(X, "sum"))
        add(f"list2array of {len(ls)} empty", "list2array", L("list2array"), lambda e, ls=ls: e.lists("x", ls, 2), lambda c, X, tr: cat([x.d for x in X]))
        add(f"ParametricAttention of {len(ls)} empty", "parametricattention", L("ParametricAttention", 2), lambda e, ls=ls: e.ragged("x", ls, 2), lambda c, X, tr: attention(X, c.p("Q")), sample=False)

    # wrappers that only watch, and tables of ids
    add("with_debug(Linear)", "with_debug", lambda e: e.L("with_debug", lin(e)), x2(2, 2), lambda c, X, tr: Lin(X.d, c))
    add("with_nvtx_range(Linear)", "with_nvtx_range", lambda e: e.L("with_nvtx_range", lin(e)), x2(2, 2), lambda c, X, tr: Lin(X.d, c))
    table = {3: 7, 5: 2}
    remap = lambda xs: arr((len(xs), 1), lambda i, _: F(table.get(int(xs[i]), 9)))
    add("remap_ids_v2", "remap_ids", lambda e: e.L("remap_ids_v2", dict(table), default=9), lambda e: e.N([3, 4, 5, 3]), lambda c, X, tr: remap(X.d), ints=True, grad=False)
    add("remap_ids_v2(column=1)", "remap_ids", lambda e: e.L("remap_ids_v2", dict(table), default=9, column=1), lambda e: e.N([[5, 3], [3, 4]]), lambda c, X, tr: remap(X.d[:, 1]), ints=True, grad=False)
    add("remap_ids_v2 of a list", "remap_ids", lambda e: e.L("remap_ids_v2", dict(table), default=9), lambda e: [3, 4, 5], lambda c, X, tr: remap(X), ints=True, grad=False)
    add("remap_ids of a list", "remap_ids", lambda e: e.L("remap_ids", dict(table), 9), lambda e: [3, 4, 5], lambda c, X, tr: remap(X), ints=True, grad=False)
    return [s for s in out if s is not None]


def attention1(x, Q):
    w = softmax(arr((1, len(x)), lambda _, t: sum((x[t, j] * Q[j] for j in range(x.shape[1])), 0)))
    return arr(x.shape, lambda t, j: x[t, j] * w[0, t])


def backwards(X):
    """A Padded with each sequence reversed."""
    o = clone(X)
    for b, n in enumerate(lens(X)):
        o.at["data"].d[:n, b] = X.at["data"].d[:n, b][::-1]
    return o


def both(X, a, b):
    """Two directions side by side; the second was computed over reversed sequences."""
    t = np.concatenate([a.data, b.data], axis=-1)
    k = a.data.shape[-1]
    for c, n in enumerate(lens(X)):
        t[:n, c, k:] = b.data[:n, c][::-1]
    return D(t, X)


def lstm_numbers(e, m, nO, nI, depth, dirs):
    """The initial state, and the second bias of each gate, are not trained: numbers."""
    for nd, p, v in e.params(m):
        if p == "HC0":
            for k, i in enumerate(np.ndindex(*v.shape)):
                v.d[i] = Fraction(((-1) ** k) * (3 + 2 * k), 13 + 4 * k)
        if p == "LSTM":
            at = 0
            for i in range(depth):
                for _ in range(dirs):
                    at += 4 * nO * nI + 4 * nO + 4 * nO * nO
                    for k in range(4 * nO):
                        v.d[at + k] = Fraction(k + 1, 11 + k)
                    at += 4 * nO
                nI = nO * dirs


def cauchy_w(c):
    w = c.t["W"][-1]
    return w.reshape(-1)


def padded_tuple(e, ls=(1, 2)):
    p = e.padded("x", list(ls), 2)
    return (p.at["data"], p.at["size_at_t"], p.at["lengths"], p.at["indices"])


def wrap(d):
    return Arr(d, "float32", "np")


CACHE = {}


def control(kind):
    """A definition that is wrong on purpose has to be reported, in output, input and parameters."""
    found = []
    wrong = Sc("Linear", "linear", lambda e: lin(e), x2(2, 2), lambda c, X, tr: 2 * Lin(X.d, c), surrogate=lambda c, X, Y, tr: Arr(3 * Y.d, "float32", Y.dev))
    r = examine(wrong, True, kind, found)
    missing = {"forward", "input", "param"} - {a for a, _ in found}
    if missing:
        raise RuntimeError(f"the control is not reported: {sorted(missing)} {r}")


def results(kind="numpy"):
    """[(scenario, mode, [(aspect, text)], outcome)], decided once."""
    if kind not in CACHE:
        control(kind)
        rs = []
        for sc in scenarios():
            for tr in sc.train:
                found = []
                r = examine(sc, tr, kind, found)
                rs.append((sc, tr, found, r))
        CACHE[kind] = rs
    return CACHE[kind]


# ---- rules ------------------------------------------------------------------

def judge(ck, rule, aspects, kinds=("numpy",), only=None):
    """Reports what concerns these aspects; a scenario that cannot be read is counted, not reported."""
    for kind in kinds:
        for sc, tr, found, r in results(kind):
            if only and not only(sc):
                continue
            tag = f"{kind} {sc.name} ({'training' if tr else 'prediction'})"
            if r[0] == "unsup":
                ck.unit("scenarios not read")
                ck.units.setdefault("not read", {}).setdefault(f"{tag}: {r[1]}"[:140], 0)
                continue
            ck.instance(rule, tag)
            for a, text in found:
                if a in aspects:
                    base = sc.name.split("(")[0].split(" ")[0]
                    ck.anchor = f"{sc.file}:{base}"
                    ck.finding(rule, Node(sc.file, 1), f"{tag}: {text}", construct=base, key=a)
                    ck.anchor = None


HOW = "Every layer is built by its constructor, initialised, given fresh symbols as parameters and input (as array, list, Ragged, Padded or tuple, with one and several sequences, with and without an empty one) and run forward and backward over them. "


def rule_computes(p, ck):
    ck.rule("definition", HOW + "In both modes and with the operations of both backends, each cell of the output is the one the documented definition of the layer gives, and nothing raises.", minimum=150)
    judge(ck, "definition", ("forward", "raise"), ("numpy", "cupy"))


def rule_gradients(p, ck):
    ck.rule("derivative", HOW + "Each cell of the gradient of the input and of every parameter is the derivative of the sum of output times given gradient, cell by cell; for softmax layers, of the logits; a second call "
            "adds the same again.", minimum=150)
    judge(ck, "derivative", ("input", "param", "shape", "again"), ("numpy", "cupy"))


def rule_g01(p, ck):
    ck.rule("cells: adjoint", HOW + "Each cell of the gradient of the input is the derivative.", minimum=1)
    judge(ck, "cells: adjoint", ("input", "param", "again"))


def rule_g02(p, ck):
    ck.rule("cells: pairs", HOW + "With settings other than the defaults, each cell of the gradients is the derivative.", minimum=1)
    judge(ck, "cells: pairs", ("input", "param"))


def rule_g03(p, ck):
    ck.rule("cells: parameters", HOW + "No parameter gets a multiple of its derivative, none at all, or after two passes anything but the double.", minimum=1)
    judge(ck, "cells: parameters", ("count", "again"))


def rule_g05(p, ck):
    ck.rule("cells: untouched", HOW + "Input, given gradient, parameters and output keep their cells; a second call of the callback gives the same.", minimum=1)
    judge(ck, "cells: untouched", ("intact", "again"))


def rule_g06(p, ck):
    ck.rule("cells: model state", HOW + "Dimensions, attributes, references and structure are those of before, parameters too.", minimum=1)
    judge(ck, "cells: model state", ("state", "intact"))


def rule_l01(p, ck):
    ck.rule("cells: settings", HOW + "With settings other than the defaults, each cell of the output is the one the documented definition of the layer gives.", minimum=1)
    judge(ck, "cells: settings", ("forward",), only=lambda sc: "=" in sc.name or "settings" in sc.name or "dropout" in sc.name.lower() or "normalize" in sc.name or "column" in sc.name or "pad" in sc.name)


def rule_l03(p, ck):
    ck.rule("cells: containers", HOW + "Outputs and gradients have the kind, shape and bookkeeping of what they stand for.", minimum=1)
    judge(ck, "cells: containers", ("forward", "shape"))
