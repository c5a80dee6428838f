"""What the layers compute, written over plain tables of cells.

A definition gets `c` (c.p(name, k): the k-th parameter of that name, in the
order the model is walked), the input value and the mode, and gives the expected
output: a table, a list or tuple of them, R(data, lengths) or D(data, like)."""
from fractions import Fraction

import numpy as np

from .cellval import P, fun, inv
from .cellarr import Arr
from .cellint import Obj
from .cellscen import arr, zeros
from .rules_cells import first_max, s_dot, s_reduce, s_reduce_max, s_seq2col, starts

F = Fraction


class R:
    """A Ragged."""

    def __init__(self, data, lengths):
        self.data, self.lengths = data, lengths


class D:
    """A Padded laid out like another one."""

    def __init__(self, data, like):
        self.data, self.like = data, like


class OneOf:
    """A cell that may be any of these."""

    def __init__(self, *xs):
        self.xs = xs


def tab(x):
    return x.d if isinstance(x, Arr) else x


def lens(X):
    return [int(i) for i in X.at["lengths"].d]


def T(a):
    return arr((a.shape[1], a.shape[0]), lambda i, j: a[j, i])


def each(a, f):
    out = np.empty(a.shape, object)
    for i in np.ndindex(*a.shape):
        out[i] = f(a[i])
    return out


def affine(x, W, b):
    y = s_dot(x, T(W))
    return arr(y.shape, lambda i, j: y[i, j] + b[j])


def softmax(x, t=1):
    e = each(x, lambda v: fun("exp", v * (F(1) / F(t))) if isinstance(v, P) else fun("exp", v))
    out = np.empty(x.shape, object)
    for i in range(x.shape[0]):
        s = sum(e[i], 0)
        for j in range(x.shape[1]):
            out[i, j] = e[i, j] * (inv(s) if isinstance(s, P) else 1 / s)
    return out


def clip(x, lo, hi):
    return lo if x < lo else (hi if x > hi else x)


def sigmoid(x):
    return inv(1 + fun("exp", -x))


def softplus(x):
    return fun("log", 1 + fun("exp", x))


ACT = {
    "Linear": lambda x: x, "Relu": lambda x: x if x > 0 else F(0), "Mish": lambda x: x if x >= 20 else x * fun("tanh", softplus(x)),
    "Gelu": lambda x: x * (1 + fun("erf", x * F("0.7071067811865476"))) / 2,
    "Swish": lambda x: x * sigmoid(x), "Sigmoid": lambda x: sigmoid(x) if abs(x) < 20 else sigmoid(F(20) if x > 0 else F(-20)),
    "HardSwish": lambda x: x * clip(x * F("0.2") + F("0.5"), F(0), F(1)), "HardSwishMobilenet": lambda x: x * clip(x + 3, F(0), F(6)) / 6,
    "Dish": lambda x: x * (x * inv(fun("sqrt", x * x + 1)) + 1) / 2,
    "ClippedLinear": lambda x: clip(x, F(0), F(1)), "ReluK": lambda x: clip(x, F(0), F(6)),
    "HardSigmoid": lambda x: clip(x * F("0.2") + F("0.5"), F(0), F(1)), "HardTanh": lambda x: clip(x, F(-1), F(1)),
}


def layernorm(x, G, b):
    n = x.shape[1]
    out = np.empty(x.shape, object)
    for i in range(x.shape[0]):
        mu = sum(x[i], 0) / n
        var = sum(((v - mu) * (v - mu) for v in x[i]), 0) / n + F(1, 10 ** 8)
        for j in range(n):
            out[i, j] = (x[i, j] - mu) * inv(fun("sqrt", var)) * G[j] + b[j]
    return out


def maxout(x, W, b):
    nO, nP, nI = W.shape
    return arr((x.shape[0], nO), lambda i, o: max((sum((x[i, k] * W[o, p, k] for k in range(nI)), 0) + b[o, p] for p in range(nP))))


def dropped(x, rate):
    return each(x, lambda v: OneOf(F(0), v * inv(1 - F(rate)) if isinstance(inv(1 - F(rate)), F) else v))


def like(X, f):
    """Apply a row-wise function to every array of a sequence."""
    if isinstance(X, Arr):
        return f(X.d)
    if isinstance(X, (list, tuple)):
        return [f(x.d) for x in X]
    if X.cls.name == "Ragged":
        return R(f(X.at["data"].d), lens(X))
    d = X.at["data"].d
    y = [f(d[:, b]) for b in range(d.shape[1])]
    out = np.empty(y[0].shape[:1] + (len(y),) + y[0].shape[1:], object)
    for b in range(len(y)):
        out[:, b] = y[b]
    return D(out, X)


def seqs(X):
    """The sequences of a value, in the order of the batch."""
    if isinstance(X, (list, tuple)):
        return [x.d for x in X]
    if X.cls.name == "Ragged":
        d = X.at["data"].d
        return [d[s:e] for s, e in starts(lens(X))]
    d, ls, ix = X.at["data"].d, lens(X), [int(i) for i in X.at["indices"].d]
    out = [None] * len(ls)
    for k, i in enumerate(ix):
        out[i] = d[:ls[k], k]
    return out


def cat(ts):
    return np.concatenate(ts, axis=0)


def per_seq(X, f):
    """Apply a function to every sequence."""
    ys = [f(x) for x in seqs(X)]
    if isinstance(X, (list, tuple)):
        return ys
    if X.cls.name == "Ragged":
        return R(cat(ys), [len(y) for y in ys])
    d, ls, ix = X.at["data"].d, lens(X), [int(i) for i in X.at["indices"].d]
    out = np.empty(d.shape[:2] + ys[0].shape[1:], object)
    out[...] = None
    for k, i in enumerate(ix):
        out[:ls[k], k] = ys[i]
    return D(out, X)


def window(x, n=1):
    return s_seq2col(x, n)


def hcat(*ts):
    return np.concatenate(ts, axis=1)


def plus(a, b):
    if isinstance(a, R):
        return R(a.data + b.data, a.lengths)
    if isinstance(a, D):
        return D(a.data + b.data, a.like)
    if isinstance(a, list):
        return [x + y for x, y in zip(a, b)]
    return a + b


def attention(X, Q, key=None):
    d = X.at["data"].d
    k = key(d) if key else d
    out = zeros(*d.shape)
    for s, e in starts(lens(X)):
        if s == e:
            continue
        w = softmax(arr((1, e - s), lambda _, t: sum((k[s + t, j] * Q[j] for j in range(d.shape[1])), 0)))
        for t in range(s, e):
            for j in range(d.shape[1]):
                out[t, j] = d[t, j] * w[0, t - s]
    return R(out, lens(X))


def cauchy(x, y, W):
    return arr((x.shape[0],), lambda i: inv(1 + sum((W[j] * (x[i, j] - y[i, j]) * (x[i, j] - y[i, j]) for j in range(x.shape[1])), 0)))


def pool(X, how):
    d, ls = X.at["data"].d, lens(X)
    return s_reduce_max(d, ls)[0] if how == "max" else s_reduce(d, ls, how)


def lstm(c, X, nO, depth=1, dirs=1, k=0):
    """An LSTM: each sequence from the initial hiddens and cells, every layer over what the one below gives in both directions."""
    W, HC = c.p("LSTM", k), c.p("HC0", k)
    xs, at = seqs(X), 0
    nI = xs[0].shape[-1]
    for i in range(depth):
        ys = []
        for d in range(dirs):
            def take(*shape):
                nonlocal at
                n = int(np.prod(shape))
                at += n
                return W[at - n:at].reshape(shape)
            Wx, bx, Wh, bh = take(4, nO, nI), take(4, nO), take(4, nO, nO), take(4, nO)
            ys.append([lstm1(x[::-1] if d else x, Wx, bx, Wh, bh, HC[0, i, d], HC[1, i, d])[::-1 if d else 1] for x in xs])
        xs = [hcat(*t) for t in zip(*ys)]
        nI = nO * dirs
    it = iter(xs)
    return per_seq(X, lambda x: next(it))


def lstm1(x, Wx, bx, Wh, bh, h, cell):
    nO = len(h)
    out = np.empty((len(x), nO), object)
    for t in range(len(x)):
        act = [[sum((x[t, j] * Wx[g, o, j] for j in range(x.shape[1])), 0) + sum((h[j] * Wh[g, o, j] for j in range(nO)), 0) + bx[g, o] + bh[g, o] for o in range(nO)] for g in range(4)]
        f, i, o_, cc = [[sigmoid(v) for v in act[0]], [sigmoid(v) for v in act[1]], [sigmoid(v) for v in act[2]], [fun("tanh", v) for v in act[3]]]
        cell = [f[o] * cell[o] + i[o] * cc[o] for o in range(nO)]
        h = [o_[o] * fun("tanh", cell[o]) for o in range(nO)]
        out[t] = h
    return out
