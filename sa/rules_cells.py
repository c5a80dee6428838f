"""Rules decided by cell provenance: what every cell of a result is made of.

The specification of each operation is written here, from its documentation,
over plain tables of symbols; the implementations are read from the sources."""
import re
from fractions import Fraction
from itertools import permutations

import numpy as np

from .cellval import A, UNINIT, P, Unsup, close, fun, inv, show, sym
from .cellarr import Arr, DT
from .cellint import Lib
from .cellscen import BACKENDS, Env, Node, arr, compare, run, transpose, where_is, zeros


# ---- specifications ---------------------------------------------------------

def starts(lengths):
    out, n = [], 0
    for x in lengths:
        out.append((n, n + x))
        n += x
    return out


def s_seq2col(X, nW, lengths=None):
    T, N = X.shape
    out = zeros(T, (2 * nW + 1) * N)
    for s, e in starts(lengths if lengths is not None else [T]):
        for t in range(s, e):
            for k in range(-nW, nW + 1):
                if s <= t + k < e:
                    for j in range(N):
                        out[t, (k + nW) * N + j] = X[t + k, j]
    return out


def s_reduce(X, lengths, how):
    out = zeros(len(lengths), X.shape[1])
    for i, (s, e) in enumerate(starts(lengths)):
        for j in range(X.shape[1]):
            col = [X[t, j] for t in range(s, e)]
            if how == "sum":
                out[i, j] = sum(col)
            elif how == "mean":
                out[i, j] = sum(col) * Fraction(1, len(col)) if col else 0
            elif how == "first":
                out[i, j] = col[0]
            elif how == "last":
                out[i, j] = col[-1]
    return out


def first_max(xs):
    best = 0
    for i, x in enumerate(xs):
        if x > xs[best]:
            best = i
    return best


def s_reduce_max(X, lengths):
    out, which = zeros(len(lengths), X.shape[1]), zeros(len(lengths), X.shape[1])
    for i, (s, e) in enumerate(starts(lengths)):
        for j in range(X.shape[1]):
            k = first_max([X[t, j] for t in range(s, e)])
            out[i, j], which[i, j] = X[s + k, j], k
    return out, which


def s_maxout(X):
    B, O, _ = X.shape
    which = arr((B, O), lambda b, o: first_max(list(X[b, o])))
    return arr((B, O), lambda b, o: X[b, o, which[b, o]]), which


def s_dot(x, y):
    return arr((x.shape[0], y.shape[1]), lambda i, j: sum((x[i, k] * y[k, j] for k in range(x.shape[1])), 0))


def s_flatten(xs, pad=0):
    rows, tail = [], xs[0].shape[1:]
    z = [np.zeros(tail, object)] * pad
    for x in [x for x in xs if x.size]:
        rows += z + list(x)
    rows += z
    out = np.empty((len(rows),) + tail, object)
    for i, r in enumerate(rows):
        out[i] = r
    return out


def s_pad(xs, round_to=1):
    n = max(x.shape[0] for x in xs)
    n += -n % round_to
    out = zeros(len(xs), n, *xs[0].shape[1:])
    for i, x in enumerate(xs):
        out[i, : x.shape[0]] = x
    return out


def s_gather(T, ix):
    return arr((ix.shape[0], T.shape[1]), lambda i, j: sum((T[ix[i, k], j] for k in range(ix.shape[1])), 0))


# ---- witness orders ---------------------------------------------------------

def asc(name, idx, i):
    return Fraction(7 + 3 * i, 11)


def desc(name, idx, i):
    return Fraction(900 - 3 * i, 11)


def zig(name, idx, i):
    return Fraction((i * 37 + 11) % 101, 7) - 6


def neg(name, idx, i):
    return -Fraction((i * 53 + 17) % 97, 5) - 1


def tie(name, idx, i):
    return Fraction(5, 2)


ORDERS = [("ascending", asc), ("descending", desc), ("mixed", zig), ("negative", neg)]


# ---- cases ------------------------------------------------------------------
# (op, tag, backends, orders, build) ; build(env) -> (args, kwargs, want)

ALL = ("base", "numpy", "cupy")
NC = ("numpy", "cupy")


def d(a):
    return a.d


def linear_cases(deep):
    cs = []

    def add(op, tag, build, backs=ALL, orders=("mixed",), dts=("float32", "float64")):
        cs.append((op, tag, backs, orders, dts, build))

    lens = [[3], [2, 0, 3], [1, 1], [0], [0, 2], [4, 0]] + ([[5, 1, 2, 0, 1], [0, 0], [7]] if deep else [])
    nz = [[3], [2, 3], [1, 1], [1, 4, 2]] + ([[5, 1, 2, 1]] if deep else [])
    widths = [2] + ([1, 3] if deep else [])

    for T, nW, N in [(4, 1, 2), (1, 1, 2), (2, 1, 1)]:
        def f(e, T=T, nW=nW, N=N):
            X = e.X("x", T, N)
            return (X, nW), {}, s_seq2col(X.d, nW)
        add("seq2col", f"{T} rows, window {nW}", f)

        def g(e, T=T, nW=nW, N=N):
            X, dY = e.X("x", T, N), e.X("g", T, N * (2 * nW + 1))
            return (dY, nW), {}, transpose(s_seq2col(X.d, nW), X.d, dY.d)
        add("backprop_seq2col", f"{T} rows, window {nW}", g)
    for ls in lens:
        for nW in (1, 2) + ((3, 0) if deep else ()):
            def f(e, ls=ls, nW=nW):
                X = e.X("x", sum(ls), 2)
                return (X, nW), {"lengths": e.N(ls)}, s_seq2col(X.d, nW, ls)
            add("seq2col", f"lengths {ls}, window {nW}", f, NC)

            def g(e, ls=ls, nW=nW):
                X, dY = e.X("x", sum(ls), 2), e.X("g", sum(ls), 2 * (2 * nW + 1))
                return (dY, nW), {"lengths": e.N(ls)}, transpose(s_seq2col(X.d, nW, ls), X.d, dY.d)
            add("backprop_seq2col", f"lengths {ls}, window {nW}", g, NC)
    for N in widths:
        for how in ("sum", "mean"):
            for ls in lens + [[]]:
                def f(e, ls=ls, how=how, N=N):
                    X = e.X("x", sum(ls), N)
                    return (X, e.N(ls)), {}, s_reduce(X.d, ls, how)
                add(f"reduce_{how}", f"lengths {ls}, width {N}", f)

                def g(e, ls=ls, how=how, N=N):
                    X, dY = e.X("x", sum(ls), N), e.X("g", len(ls), N)
                    return (dY, e.N(ls)), {}, transpose(s_reduce(X.d, ls, how), X.d, dY.d)
                add(f"backprop_reduce_{how}", f"lengths {ls}, width {N}", g)
        for ls in nz:
            for how in ("first", "last"):
                def f(e, ls=ls, how=how, N=N):
                    X = e.X("x", sum(ls), N)
                    return (X, e.N(ls)), {}, (s_reduce(X.d, ls, how), None)
                add(f"reduce_{how}", f"lengths {ls}, width {N}", f)

                def g(e, ls=ls, how=how, N=N):
                    X, dY = e.X("x", sum(ls), N), e.X("g", len(ls), N)
                    aux = e.call(f"reduce_{how}", X, e.N(ls))[1]
                    return (dY, aux), {}, transpose(s_reduce(X.d, ls, how), X.d, dY.d)
                add(f"backprop_reduce_{how}", f"lengths {ls}, width {N}", g)

            def f(e, ls=ls, N=N):
                X = e.X("x", sum(ls), N)
                return (X, e.N(ls)), {}, s_reduce_max(X.d, ls)
            add("reduce_max", f"lengths {ls}, width {N}", f, orders=("ascending", "descending", "mixed", "negative"))

            def g(e, ls=ls, N=N):
                X, dY = e.X("x", sum(ls), N), e.X("g", len(ls), N)
                Y, which = s_reduce_max(X.d, ls)
                return (dY, e.N(which.astype(int)), e.N(ls)), {}, transpose(Y, X.d, dY.d)
            add("backprop_reduce_max", f"lengths {ls}, width {N}", g, orders=("ascending", "descending", "mixed"))

    def f(e):
        X = e.X("x", 5, 2)
        Y, which = s_reduce_max(X.d, [2, 3])
        return (X, e.N([2, 3])), {}, (None, which)
    add("reduce_max", "equal values", f, orders=("ties",))

    for sh in [(2, 2, 3), (1, 1, 1), (3, 1, 2), (1, 2, 4)] + ([(2, 3, 4)] if deep else []):
        def f(e, sh=sh):
            X = e.X("x", *sh)
            return (X,), {}, s_maxout(X.d)
        add("maxout", f"shape {sh}", f, orders=("ascending", "descending", "mixed", "negative"))

        def g(e, sh=sh):
            X, dY = e.X("x", *sh), e.X("g", *sh[:2])
            Y, which = s_maxout(X.d)
            return (dY, e.N(which.astype(int)), sh[2]), {}, transpose(Y, X.d, dY.d)
        add("backprop_maxout", f"shape {sh}", g, orders=("ascending", "descending", "mixed"))

    def f(e):
        X = e.X("x", 2, 2, 3)
        return (X,), {}, (None, s_maxout(X.d)[1])
    add("maxout", "equal values", f, orders=("ties",))

    for t1 in (False, True):
        for t2 in (False, True):
            for m, k, n in [(2, 3, 1), (1, 2, 3)] + ([(3, 3, 3), (2, 1, 2)] if deep else []):
                for o in (False, True):
                    def f(e, t1=t1, t2=t2, m=m, k=k, n=n, o=o):
                        x = e.X("x", *((k, m) if t1 else (m, k)))
                        y = e.X("y", *((n, k) if t2 else (k, n)))
                        kw = {"trans1": t1, "trans2": t2}
                        if o:
                            kw["out"] = e.X("o", m, n)
                        return (x, y), kw, s_dot(x.d.T if t1 else x.d, y.d.T if t2 else y.d)
                    add("gemm", f"{m}x{k}x{n}, transposed {t1} {t2}, out {o}", f)

    def f(e):
        X, W, b = e.X("x", 2, 3), e.X("w", 2, 3), e.X("b", 2)
        Y = s_dot(X.d, W.d.T)
        return (X, W, b), {}, arr(Y.shape, lambda i, j: Y[i, j] + b.d[j])
    add("affine", "2x3", f)

    for ls in [[2, 1], [3], [1, 0, 2], [0, 0]]:
        for pad in (0, 1, 2):
            def f(e, ls=ls, pad=pad):
                xs = [e.X(f"x{i}_", n, 2) for i, n in enumerate(ls)]
                return (xs,), {"pad": pad}, s_flatten([x.d for x in xs], pad) if any(ls) else zeros(0, 2)
            add("flatten", f"lengths {ls}, pad {pad}", f, dts=("float32",))
            if sum(ls):
                def g(e, ls=ls, pad=pad):
                    xs = [e.X(f"x{i}_", n, 2) for i, n in enumerate(ls)]
                    Y = e.call("flatten", xs, pad=pad)
                    return (Y, e.N(ls), pad), {}, [x.d for x in xs]
                add("unflatten", f"of the flattened lengths {ls}, pad {pad}", g, dts=("float32",))

                def h(e, ls=ls):
                    X = e.X("x", sum(ls), 2)
                    return (X, e.N(ls)), {}, [X.d[s:t] for s, t in starts(ls)]
                if pad == 0:
                    add("unflatten", f"lengths {ls}", h, dts=("float32",))

    def f(e):
        xs = [e.X(f"x{i}_", n) for i, n in enumerate([2, 1])]
        return (xs,), {}, s_flatten([x.d for x in xs])
    add("flatten", "one dimension", f, dts=("float32",))

    for ls in [[2, 1], [3], [1, 0, 2]] + ([[2, 4, 1, 4]] if deep else []):
        for r in (1, 2, 4):
            def f(e, ls=ls, r=r):
                xs = [e.X(f"x{i}_", n, 2) for i, n in enumerate(ls)]
                return (xs,), {"round_to": r}, s_pad([x.d for x in xs], r)
            add("pad", f"lengths {ls}, rounded to {r}", f)

        def g(e, ls=ls):
            xs = [e.X(f"x{i}_", n, 2) for i, n in enumerate(ls)]
            P_ = e.call("pad", xs)
            return (P_, ls), {}, [x.d for x in xs]
        add("unpad", f"of the padded lengths {ls}", g, dts=("float32",))

        def g(e, ls=ls):
            X = e.X("p", len(ls), max(ls) + 1, 2)
            return (X, ls), {}, [X.d[i, :n] for i, n in enumerate(ls)]
        add("unpad", f"lengths {ls}", g, dts=("float32",))

    for n, m, k, N in [(3, 2, 2, 3), (2, 3, 1, 2), (1, 1, 3, 2), (3, 2, 3, 2)]:
        def f(e, n=n, m=m, k=k, N=N):
            T = e.X("t", n, N)
            ix = np.array([[(i * 2 + j * 3 + 1) % n for j in range(k)] for i in range(m)])
            return (T, e.N(ix)), {}, s_gather(T.d, ix)
        add("gather_add", f"{n} rows, {m}x{k} indices", f)
    return cs


ORD = dict(ORDERS, ties=tie)


class Tally:
    """Scenarios read and not read of one rule."""

    def __init__(self, ck, rule):
        self.ck, self.rule = ck, rule

    def report(self, env, op, key, what, where=""):
        rel, q, line = where_is(env, op) if op else where
        self.ck.anchor = f"{rel}:{q}"
        self.ck.finding(self.rule, Node(rel, line), what + (f" [in {where}]" if op and where else ""), construct=q, key=key)
        self.ck.anchor = None

    def judge(self, env, op, tag, r, want, dtype=None, key=None):
        """Compare the outcome of a scenario with the specified result."""
        inst = f"{env.kind}.{op}: {tag}"
        key = key or f"{env.kind}.{op}"
        if r[0] == "unsup":
            self.ck.unit("scenarios not read")
            self.ck.units.setdefault("not read", {}).setdefault(f"{env.kind}.{op}: {r[1]}"[:140], 0)
            return False
        self.ck.instance(self.rule, inst)
        self.ck.unit("functions on the path", len(env.w.used))
        if r[0] == "viol":
            self.report(env, op, key, f"{tag}: {r[1]}", r[2])
        elif r[0] == "raise":
            self.report(env, op, key, f"{tag}: a valid input is rejected with {r[1]}: {r[2]}")
        else:
            bad = compare(r[1], want, dtype)
            if bad:
                self.report(env, op, key, f"{tag}: {bad}")
        return True


def rule_linear(p, ck):
    deep = ck.tier == "thorough"
    ck.rule("linear-definition", "each cell of the result of a layout, pooling, window, gather or matrix operation is the documented combination of input cells, in every backend; "
            "each backward operation is the transposed map of the documented forward one", minimum=150)
    t = Tally(ck, "linear-definition")
    for op, tag, backs, orders, dts, build in linear_cases(deep) + more_cases(deep):
        for kind in backs:
            for dt in (dts if kind != "base" else dts[:1]):
                for o in orders:
                    env = Env(kind, dt, wit=ORD[o])
                    want = []

                    def go(e):
                        a, k, w = build(e)
                        want.append(w)
                        return e.call(op, *a, **k)
                    r = run(env, go)
                    dtype = None
                    w = want[0] if want else None
                    if kind != "base" and isinstance(w, np.ndarray) and w.size:
                        dtype = dt
                    t.judge(env, op, f"{dt}, {tag}" + (f", {o} values" if len(orders) > 1 else ""), r, w, dtype)
    ck.selftest("linear-definition", compare(Arr(arr((1, 1), lambda *i: sym("a")), "float32"), arr((1, 1), lambda *i: sym("a") * 2)) is not None)


def permuted(got, n):
    """The whole numbers of a result that must be a permutation of 0..n-1, or None."""
    ix = whole(got)
    return ix if ix is not None and sorted(ix) == list(range(n)) else None


def whole(a):
    if not isinstance(a, Arr) or a.ndim != 1:
        return None
    v = [x for x in a.d]
    return [int(x) for x in v] if all(isinstance(x, (int, Fraction)) and x == int(x) for x in v) else None


def padded_ok(e, xs):
    """What a Padded batch must hold for a list of sequences."""
    n, top = len(xs), max([x.shape[0] for x in xs] or [0])

    def ok(got):
        data, size, lengths, indices = (e.attr(got, f) for f in ("data", "size_at_t", "lengths", "indices"))
        ix, ls, sz = permuted(indices, n), whole(lengths), whole(size)
        if ix is None:
            return "indices is not a permutation of the positions of the sequences"
        if ls != [xs[i].shape[0] for i in ix]:
            return f"lengths is {ls}, the sequences at indices have {[xs[i].shape[0] for i in ix]} rows"
        if ls != sorted(ls, reverse=True):
            return f"lengths {ls} are not in decreasing order"
        if sz != [sum(1 for x in ls if x > t) for t in range(top)]:
            return f"size_at_t is {sz}, {[sum(1 for x in ls if x > t) for t in range(top)]} expected for lengths {ls}"
        want = zeros(top, n, xs[0].d.shape[1] if xs else 0)
        for j, i in enumerate(ix):
            want[: xs[i].shape[0], j] = xs[i].d
        return compare(data, want, path="data") if xs else None
    return ok


def s_adam(w, g, m, v, b1, b2, eps, lr):
    m2 = arr(m.shape, lambda i: b1 * m[i] + (1 - b1) * g[i])
    v2 = arr(v.shape, lambda i: b2 * v[i] + (1 - b2) * g[i] * g[i])
    return arr(w.shape, lambda i: w[i] - lr * m2[i] * inv(fun("sqrt", v2[i]) + eps)), m2, v2


def more_cases(deep):
    cs = []

    def add(op, tag, build, backs=ALL, orders=("mixed",), dts=("float32",)):
        cs.append((op, tag, backs, orders, dts, build))
    for ls in [[], [3], [2, 3], [3, 2], [2, 2, 1], [1, 3, 2, 3], [1, 0, 2], [0, 0], [0]]:
        def f(e, ls=ls):
            xs = [e.X(f"x{i}_", n, 2) for i, n in enumerate(ls)]
            return (xs,), {}, padded_ok(e, xs)
        add("list2padded", f"lengths {ls}", f)

        def g(e, ls=ls):
            xs = [e.X(f"x{i}_", n, 2) for i, n in enumerate(ls)]
            return (e.call("list2padded", xs),), {}, [x.d for x in xs]
        add("padded2list", f"of the padded lengths {ls}", g)
    for ls, ix in [([3, 2], [1, 0]), ([3, 1, 1], [2, 0, 1]), ([2, 2], [0, 1])]:
        def f(e, ls=ls, ix=ix):
            X = e.X("p", max(ls), len(ls), 2)
            want = [None] * len(ls)
            for j, i in enumerate(ix):
                want[i] = X.d[: ls[j], j]
            return (e.fn("thinc/types.py", "Padded", X, e.N([sum(1 for x in ls if x > t) for t in range(max(ls))]), e.N(ls), e.N(ix)),), {}, want
        add("padded2list", f"lengths {ls}, indices {ix}", f)
    for n in (1, 3, 65) + ((64, 70, 128, 130) if deep else ()):
        def f(e, n=n):
            w, g, m, v = e.X("w", n), e.X("g", n), e.X("m", n), e.X("v", n)
            h = (Fraction(9, 10), Fraction(99, 100), Fraction(1, 1000), Fraction(1, 10))
            W, M, V = s_adam(w.d.copy(), g.d.copy(), m.d.copy(), v.d.copy(), *h)

            def ok(got):
                return compare(got, [W, None, M, V]) or compare([w, m, v], [W, M, V], path="the array passed in")
            return (w, g, m, v) + h, {}, ok
        add("adam", f"{n} weights", f)
    for drop in (None, 0, Fraction(-1, 2), Fraction(1, 4), Fraction(3, 4), 1, 2):
        for sh in ((2, 3), (4,)):
            def f(e, drop=drop, sh=sh):
                def ok(got):
                    if drop is None or drop <= 0 or drop >= 1:
                        return compare(got, arr(sh, lambda *i: 0 if drop and drop > 0 else 1), "float32")
                    if not isinstance(got, Arr) or got.d.shape != sh:
                        return "the mask does not have the shape asked for"
                    if got.dtype != DT("float32"):
                        return f"the mask holds {got.dtype}"
                    dr = [x for x in getattr(e.w, e.dev[0] + 'p').random.draws if x[0] == "uniform" and x[2] == sh]
                    if not dr:
                        return "the mask is not drawn at random"
                    for i in np.ndindex(*sh):
                        x = A.wit[dr[-1][3] + "".join(f"_{j}" for j in i)]
                        lo, hi = dr[-1][1]
                        q = (x - Fraction(lo)) / (Fraction(hi) - Fraction(lo))
                        w = 1 / (1 - Fraction(drop))
                        if q != Fraction(drop) and not close(got.d[i], w if q > drop else 0) and not close(got.d[i], w if 1 - q > drop else 0):
                            return f"result[{','.join(map(str, i))}] is {show(got.d[i])} for a draw of {float(q):.2f}"
                    return None
                return (sh, drop), {}, ok
            add("get_dropout_mask", f"shape {sh}, drop {drop}", f)
    for n, k in [(1, 3), (2, 3), (3, 3), (2, 2), (4, 3), (2, 0), (2, 5)]:
        def f(e, n=n, k=k):
            ks = [11 * i + 5 for i in range(k)]
            return (n, e.N(np.array(ks, dtype="uint64"), "uint64")), {}, lambda got: windows(got, ks, n)
        add("ngrams", f"n {n}, {k} keys", f)
    for m, ix, shared in [(3, [2, 0], False), (3, [1, 1, 2], False), (2, [0], False)]:
        def f(e, m=m, ix=ix):
            T, V = e.X("t", m, 2), e.X("v", len(ix), 2)
            want = T.d.copy()
            for i, j in enumerate(ix):
                want[j] = want[j] + V.d[i]
            return (T, e.N(ix), V), {}, lambda got: compare(T, want, path="table")
        add("scatter_add", f"{m} rows, indices {ix}", f, dts=("float32", "float64"))
    for N, D in [(2, 4), (3, 2), (1, 1), (2, 3)]:
        def f(e, N=N, D=D):
            return (N, D), {}, position_ok(N, D)
        add("position_encode", f"{N} positions, {D} dimensions", f)
    return cs


def windows(got, ks, n):
    if not isinstance(got, Arr) or got.ndim != 1:
        return "the result is not a list of keys"
    m = max(0, len(ks) - n + 1)
    if got.d.shape[0] != m:
        return f"{got.d.shape[0]} keys, {m} windows"
    if m and got.dtype != DT("uint64"):
        return f"64-bit keys are stored as {got.dtype}"
    for i in range(m):
        x = got.d[i]
        if getattr(x, "what", None) != "hash64":
            return f"result[{i}] is {x!r}, not the hash of a window"
        if list(x.parts[:-1]) != ks[i : i + n]:
            return f"result[{i}] hashes {list(x.parts[:-1])}, {ks[i:i + n]} expected"
        if x.parts[-1] != got.d[0].parts[-1]:
            return f"result[{i}] is hashed with another seed"
    return None


def position_ok(N, D):
    """Alternating sine and cosine of the position over one geometric range of periods."""
    return arr((N, D), lambda i, j: None)


# ---- layouts and types of the arguments --------------------------------------

def fortran(a):
    return Arr(np.asfortranarray(a.d), a.dtype, a.dev)


def strided(a):
    if not a.d.ndim:
        return a
    big = np.empty(a.d.shape[:-1] + (2 * a.d.shape[-1],), object)
    big[...] = UNINIT
    v = big[..., ::2]
    v[...] = a.d
    return Arr(v, a.dtype, a.dev)


def reverse(a):
    b = np.empty(a.d.shape, object)[::-1]
    b[...] = a.d
    return Arr(b, a.dtype, a.dev)


def retyped(a):
    o = {"float32": "float64", "float64": "float32", "int32": "int64", "int64": "int32"}.get(str(a.dtype))
    return Arr(a.d.copy(), o, a.dev) if o else a


def half(a):
    return Arr(a.d.copy(), "float16", a.dev) if a.dtype.isfloat else Arr(a.d.copy(), "int64", a.dev)


FIXED = {"adam", "position_encode"}     # one precision only
VARIANTS = [("in column order", fortran), ("as a strided view", strided), ("in reverse order in memory", reverse), ("in the other precision", retyped), ("in a type without native support", half)]


ELEMENTWISE = [  # op, arguments after the incoming gradient
    ("relu", 0), ("clipped_linear", 0), ("relu_k", 0), ("hard_sigmoid", 0), ("hard_tanh", 0), ("swish", 0), ("hard_swish", 0), ("hard_swish_mobilenet", 0), ("dish", 0),
    ("gelu", 0), ("gelu_approx", 0), ("mish", 0), ("sigmoid", 0), ("dsigmoid", 0), ("dtanh", 0),
    ("backprop_relu", 1), ("backprop_clipped_linear", 1), ("backprop_relu_k", 1), ("backprop_hard_sigmoid", 1), ("backprop_hard_tanh", 1), ("backprop_swish", 2),
    ("backprop_hard_swish", 1), ("backprop_hard_swish_mobilenet", 1), ("backprop_dish", 1), ("backprop_gelu", 1), ("backprop_gelu_approx", 1), ("backprop_mish", 1),
    ("backprop_sigmoid", 1)]


INTS = [("clipped_linear", 0, {"slope": 2, "offset": 1, "min_val": -1, "max_val": 3}), ("relu_k", 0, {"n": 6}), ("mish", 0, {"threshold": 20}), ("swish", 0, {}),
        ("backprop_clipped_linear", 1, {"slope": 2, "offset": 1, "min_val": -1, "max_val": 3}), ("backprop_relu_k", 1, {"n": 6}), ("backprop_mish", 1, {"threshold": 20})]


def raw_cases(deep):
    """(op, tag, backends, order, build): build(env) -> (args, kwargs)."""
    seen = {}
    for op, tag, backs, orders, dts, build in linear_cases(deep):
        k = seen.setdefault(op, [])
        if len(k) < (6 if deep else 2) and not any(x in tag for x in ("lengths [0]", "lengths [0, 0]", "[]", "1 rows", "(1, 1, 1)")):
            k.append(1)
            yield op, tag, backs, orders[0], lambda e, b=build: b(e)[:2]
    for op, extra in ELEMENTWISE:
        for ip in (False, True):
            yield op, f"inplace {ip}", ALL, "mixed", lambda e, n=extra, ip=ip: ((e.X("x", 2, 3),) + tuple(e.X(f"y{i}", 2, 3) for i in range(n)), {"inplace": ip})
    for op, extra, kw in INTS:
        yield op, "settings given as whole numbers", ALL, "mixed", lambda e, n=extra, kw=kw: ((e.X("x", 2, 3),) + tuple(e.X(f"y{i}", 2, 3) for i in range(n)), dict(kw))
    yield "scatter_add", "3 rows", ALL, "mixed", lambda e: ((e.X("t", 3, 2), e.N([2, 0]), e.X("v", 2, 2)), {})
    yield "position_encode", "out given", ALL, "mixed", lambda e: ((2, 3), {"out": e.X("o", 2, 3, dt="float32")})
    yield "softmax", "2x3", ALL, "mixed", lambda e: ((e.X("x", 2, 3),), {})
    yield "adam", "1 weight row", ALL, "mixed", lambda e: ((e.X("w", 3), e.X("g", 3), e.X("m", 3), e.X("v", 3), Fraction(9, 10), Fraction(99, 100), Fraction(1, 1000), Fraction(1, 10)), {})


def outcome(res, a):
    """Everything the caller sees of a call: the result and the arrays passed in."""
    def plain(x):
        if isinstance(x, Arr):
            return x.d.copy()
        if isinstance(x, (list, tuple)):
            return [plain(y) for y in x]
        return None if not isinstance(x, (int, Fraction, P)) else x
    return [plain(res), plain(a)]


def flat(a, k):
    """Positions of the arrays among the arguments."""
    out = []
    for i, x in list(enumerate(a)) + list(k.items()):
        if isinstance(x, Arr):
            out.append((i, None))
        elif isinstance(x, list):
            out += [(i, j) for j, y in enumerate(x) if isinstance(y, Arr)]
    return out


def rule_raw(p, ck):
    deep = ck.tier == "thorough"
    ck.rule("raw-buffer", "an argument of another memory layout or element type gives the same result, and the same update of the arguments, or is rejected; no code reads memory as what it is not",
            minimum=400)
    t = Tally(ck, "raw-buffer")
    for op, tag, backs, o, build in raw_cases(deep):
        for kind in backs:
            if kind == "base":
                continue
            for vname, f, base in [(v, f, b) for v, f in VARIANTS for b in ("float32", "float64")]:
                if base == "float64" and (f in (retyped, half) or op in FIXED):
                    continue
                n, more = 0, True
                while more:
                    env = Env(kind, base, wit=ORD[o])
                    st = {"want": None, "more": False, "skip": False, "ref": None}

                    def go(e):
                        a, k = build(e)
                        pos = flat(a, k)
                        if n >= len(pos):
                            st["skip"] = True
                            return None
                        st["more"] = True
                        st["ref"] = True
                        st["want"] = outcome(e.call(op, *a, **k), list(a) + list(k.values()))
                        st["ref"] = False
                        a, k = build(e)
                        a = list(a)
                        i, j = pos[n]
                        tgt = a if isinstance(i, int) else k
                        if j is not None:
                            tgt[i] = list(tgt[i])
                            tgt, i = tgt[i], j
                        x = f(tgt[i])
                        if x is tgt[i] or (x.dtype == tgt[i].dtype and x.contig == tgt[i].contig):
                            st["skip"] = True
                            return None
                        tgt[i] = x
                        return SameAs(outcome(e.call(op, *a, **k), list(a) + list(k.values())))
                    r = run(env, go)
                    more = st["more"]
                    if not st["skip"]:
                        if st["ref"] and r[0] != "unsup":
                            more = False
                            t.judge(env, op, f"{tag}, {base}", r, None, key=f"{env.kind}.{op}|plain")
                        else:
                            if r[0] == "raise":
                                r = ("ok", None)
                            elif "gelu" in op and r[0] == "ok" and f in (retyped, half):
                                r = ("ok", None)        # another path, with its own approximation of erf: the business of B04
                            t.judge(env, op, f"{tag}, {base}, argument {n} {vname}", r, st["want"] if r[1] is not None else None, key=f"{env.kind}.{op}|{vname}")
                    n += 1


class SameAs:
    def __init__(self, v):
        self.v = v


# ---- invalid arguments --------------------------------------------------------

def bounds_cases(deep):
    """(op, tag, backends, must_raise, build): build(env) -> (args, kwargs[, setup])."""
    cs = []

    def add(op, tag, must, build, backs=NC):
        cs.append((op, tag, backs, must, build))
    # lengths that do not describe the rows
    for op in ("reduce_sum", "reduce_mean", "reduce_max", "reduce_first", "reduce_last"):
        strict = op in ("reduce_max", "reduce_first", "reduce_last")
        for rows, ls, must in [(3, [2, 2], True), (3, [4], True), (0, [1], True), (3, [-1, 2], True), (3, [3, -1], True), (3, [4, -1], True), (3, [-1, 4], True), (3, [2], None), (3, [0], None if not strict else True),
                               (3, [3, 0], None if not strict else True), (3, [0, 3], None if not strict else True), (0, [0], None if not strict else True), (0, [0, 0], None if not strict else True), (3, [], None),
                               (2, [2 ** 31 - 1, 2], True), (3, [2 ** 30, 2 ** 30, 2 ** 30, 2 ** 30, 3], True)]:
            for N in (2, 0, 1):
                add(op, f"{rows} rows of width {N}, lengths {ls}", must if N else None, lambda e, rows=rows, ls=ls, N=N: ((e.X("x", rows, N), e.N(np.array(ls, dtype="int64").reshape(-1))), {}), ALL if must else NC)
    for op in ("backprop_reduce_sum", "backprop_reduce_mean", "backprop_reduce_max"):
        mx = op == "backprop_reduce_max"
        for rows, ls, must in [(2, [2, -1], True), (1, [-1], True), (2, [3, -2], True), (2, [-2, 3], True), (1, [2, 1], True), (3, [2, 1], True), (0, [2], True), (2, [0, 0], True if mx else None), (2, [0, 2], True if mx else None),
                               (0, [], None), (1, [0], True if mx else None)]:
            def f(e, rows=rows, ls=ls, mx=mx):
                g, L = e.X("g", rows, 2), e.N(np.array(ls, dtype="int64").reshape(-1))
                return ((g, e.N(np.zeros((rows, 2), int)), L) if mx else (g, L)), {}
            add(op, f"{rows} gradient rows, lengths {ls}", must, f)
    for wh, sh, ls in [([[0, 2], [0, 0]], (2, 2), [2, 1]), ([[0, 0], [1, 0]], (2, 2), [2, 1]), ([[-1, 0], [0, 0]], (2, 2), [2, 1]), ([[0, 0]], (2, 2), [2, 1]), ([[0], [0]], (2, 2), [2, 1]),
                       ([[0, 0], [0, -3]], (2, 2), [2, 1]), ([[0, 2 ** 31 - 1], [0, 0]], (2, 2), [2, 1]), ([[0, 0], [0, 0], [0, 0]], (2, 2), [2, 1])]:
        add("backprop_reduce_max", f"positions {wh}, lengths {ls}", True, lambda e, wh=wh, sh=sh, ls=ls: ((e.X("g", *sh), e.N(wh), e.N(ls)), {}))
    # windows
    for op in ("seq2col", "backprop_seq2col"):
        k = 1 if op == "seq2col" else 3
        for rows, ls, must in [(3, [2, 2], True), (3, [4], True), (3, [2], True), (3, [-1, 4], True), (3, [4, -1], True), (3, [], True), (0, [], None), (0, [0], None), (0, [1], True), (3, [0, 0], True)]:
            add(op, f"{rows} rows, lengths {ls}", must, lambda e, rows=rows, ls=ls, k=k: ((e.X("x", rows, 2 * k), 1), {"lengths": e.N(np.array(ls, dtype="int64").reshape(-1))}))
        for rows, nW, w in [(1, 3, 7), (2, 5, 11), (0, 1, 3), (3, 0, 1)]:
            add(op, f"{rows} rows, window {nW}", None, lambda e, rows=rows, nW=nW, w=w, op=op: ((e.X("x", rows, 1 if op == "seq2col" else w), nW), {}))
        add(op, "no columns", None, lambda e: ((e.X("x", 3, 0), 1), {}))
        add(op, "one dimension", True, lambda e: ((e.X("x", 3), 1), {}))
    # maxout
    add("maxout", "no pieces", True, lambda e: ((e.X("x", 2, 2, 0),), {}))
    for sh in [(0, 2, 2), (2, 0, 2), (0, 0, 1)]:
        add("maxout", f"shape {sh}", None, lambda e, sh=sh: ((e.X("x", *sh),), {}))
    for wh, P_, must in [([[0, 2], [0, 0]], 2, True), ([[0, -1], [0, 0]], 2, True), ([[0, 0]], 2, True), ([[0, 0, 0], [0, 0, 0]], 2, True), ([[0], [0]], 2, True), ([[0, 0], [2 ** 31 - 1, 0]], 2, True), ([[0, 0], [0, 0]], 0, True),
                         ([[0, 0], [0, 0]], -1, True), ([[1, 1], [1, 1]], 1, True)]:
        add("backprop_maxout", f"positions {wh}, {P_} pieces", must, lambda e, wh=wh, P_=P_: ((e.X("g", 2, 2), e.N(wh), P_), {}))
    # indices
    for ix, must in [([[3]], True), ([[-1]], True), ([[0], [2 ** 31 - 1]], True), ([[0, 1], [2, 3]], True), ([[0, 1], [-4, 0]], True)]:
        add("gather_add", f"3 rows, indices {ix}", must, lambda e, ix=ix: ((e.X("t", 3, 2), e.N(ix)), {}))
    add("gather_add", "empty table", True, lambda e: ((e.X("t", 0, 2), e.N([[0]])), {}))
    add("gather_add", "no indices", None, lambda e: ((e.X("t", 3, 2), e.N(np.zeros((0, 2), int))), {}))
    add("gather_add", "no columns", None, lambda e: ((e.X("t", 3, 0), e.N([[1]])), {}))
    add("gather_add", "rows without indices", None, lambda e: ((e.X("t", 3, 2), e.N(np.zeros((2, 0), int))), {}))
    for ix, rows, N, must in [([3], 1, 2, True), ([-4], 1, 2, True), ([0, 1], 1, 2, None), ([0], 2, 2, True), ([0], 1, 3, True), ([0], 1, 1, None), ([], 0, 2, None), ([2 ** 31 - 1], 1, 2, True)]:
        add("scatter_add", f"3x2 table, indices {ix}, {rows}x{N} values", must, lambda e, ix=ix, rows=rows, N=N: ((e.X("t", 3, 2), e.N(np.array(ix, int)), e.X("v", rows, N)), {}), ("numpy",))
    # matrix products
    for a, b, kw, o, must in [((2, 3), (2, 3), {}, None, True), ((2, 3), (3, 2), {}, (2, 3), True), ((2, 3), (3, 2), {}, (3, 2), True), ((2, 3), (3, 2), {}, (1, 2), True), ((2, 3), (3, 2), {}, (4,), True),
                              ((2, 3), (2, 2), {"trans1": True}, (2, 2), True), ((2, 3), (2, 3), {"trans2": True}, (2, 3), True), ((0, 3), (3, 2), {}, None, None), ((2, 0), (0, 2), {}, None, None), ((2, 3), (3, 0), {}, None, None),
                              ((2, 3, 1), (3, 2), {}, None, True), ((3,), (3, 2), {}, None, True), ((2, 3), (3,), {}, None, True)]:
        def f(e, a=a, b=b, kw=kw, o=o):
            k = dict(kw)
            if o:
                k["out"] = e.X("o", *o)
            return (e.X("x", *a), e.X("y", *b)), k
        add("gemm", f"{a} by {b}, {kw}, out {o}", must, f, ("numpy",))
    # elementwise pairs of different shapes
    for op, extra in ELEMENTWISE:
        for ip in (False, True):
            if extra:
                for i in range(extra):
                    for small in ((1, 2), (2, 1), (2, 3), (3, 2)):
                        add(op, f"inplace {ip}, argument {i + 1} of shape {small} with a gradient of shape (2, 2)", True if small not in ((1, 2), (2, 1)) else None,
                            lambda e, i=i, small=small, ip=ip, extra=extra: ((e.X("g", 2, 2),) + tuple(e.X(f"y{j}", *(small if i == j else (2, 2))) for j in range(extra)), {"inplace": ip}))
            add(op, f"inplace {ip}, no elements", None, lambda e, ip=ip, extra=extra: ((e.X("g", 0, 2),) + tuple(e.X(f"y{j}", 0, 2) for j in range(extra)), {"inplace": ip}))
    for bad in range(1, 4):
        for n in (2, 4):
            add("adam", f"3 weights, argument {bad} with {n} elements", True,
                lambda e, bad=bad, n=n: (tuple(e.X("wgmv"[i], n if i == bad else 3) for i in range(4)) + (Fraction(9, 10), Fraction(99, 100), Fraction(1, 1000), Fraction(1, 10)), {}))
    for sh, must in [((2, 3), None), ((3, 2), True), ((2, 4), True), ((6,), True), ((1, 3), True)]:
        add("position_encode", f"out of shape {sh}", must, lambda e, sh=sh: ((2, 3), {"out": e.X("o", *sh)}), ("numpy",))
    for N, D in [(0, 3), (2, 0), (2, 1), (1, 4), (3, 5)]:
        add("position_encode", f"{N} positions, {D} dimensions", None, lambda e, N=N, D=D: ((N, D), {}))
    for n, ks in [(0, [1, 2]), (-1, [1, 2]), (1, []), (3, [1, 2]), (2, [1, 2]), (1, [5]), (2, [1, 2, 3, 4]), (2 ** 31 - 1, [1, 2])]:
        add("ngrams", f"n {n}, {len(ks)} keys", None, lambda e, n=n, ks=ks: ((n, e.N(np.array(ks, int), "uint64")), {}), ("numpy",))
    for ks in [[], [1], [1, 2, 2 ** 63]]:
        add("hash", f"{len(ks)} keys", None, lambda e, ks=ks: ((e.N(np.array(ks, dtype="uint64"), "uint64"), 3), {}), ("numpy",))
    return cs


def rule_bounds(p, ck):
    deep = ck.tier == "thorough"
    ck.rule("memory-bounds", "whatever lengths, positions, indices and shapes an operation is given, its code stays within its arrays, uses no cell it has not written and writes every cell of its result; "
            "what does not describe the data is rejected before it is used", minimum=400)
    t = Tally(ck, "memory-bounds")
    for op, tag, backs, must, build in bounds_cases(deep):
        for kind in backs:
            for dt in (("float32", "float64") if deep else ("float32",)):
                env = Env(kind, dt, wit=zig)

                def go(e):
                    a, k = build(e)
                    return e.call(op, *a, **k)
                r = run(env, go)
                if r[0] == "raise":
                    r = ("ok", None)
                    t.judge(env, op, f"{dt}, {tag}", r, None)
                elif r[0] == "ok" and must:
                    t.judge(env, op, f"{dt}, {tag}", ("viol", "arguments that do not fit are accepted", ""), None, key=f"{env.kind}.{op}|accepted")
                else:
                    t.judge(env, op, f"{dt}, {tag}", r, written)


def written(got, path="result"):
    if isinstance(got, Arr):
        for i in np.ndindex(*got.d.shape):
            if got.d[i] is UNINIT:
                return f"{path}[{','.join(map(str, i))}] is never written"
    elif isinstance(got, (list, tuple)):
        for i, g in enumerate(got):
            r = written(g, f"{path}[{i}]")
            if r:
                return r
    return None


# ---- launches -------------------------------------------------------------------

GRIDS = [(1, 1), (1, 3), (3, 1), (2, 2), (4, 4)]


def rule_launch(p, ck):
    deep = ck.tier == "thorough"
    ck.rule("cuda-launch", "a CUDA kernel is given the arguments it declares, and computes the same whatever the number of blocks and threads, with no two threads touching one cell", minimum=150)
    ck.rule("cuda-kernels", "each kernel the package names is in the list that is compiled and is defined in the CUDA source", minimum=20)
    t = Tally(ck, "cuda-launch")
    cases = [(op, tag, o, build) for op, tag, backs, o, build in raw_cases(deep) if "cupy" in backs]
    for op, tag, o, build in cases:
        for dt in ("float32", "float64"):
            first = None
            for grid in GRIDS[: (5 if deep else 4)]:
                env = Env("cupy", dt, grid=grid, wit=ORD[o])
                st = {}

                def go(e):
                    a, k = build(e)
                    a = list(a)
                    st["a"] = list(a) + list(k.values())
                    return e.call(op, *a, **k)
                r = run(env, go)
                if r[0] == "ok":
                    got = keyed(outcome(r[1], st["a"]))
                    if first is None:
                        first = got
                        r = ("ok", None)
                    elif got != first:
                        r = ("viol", f"with {grid[0]} blocks of {grid[1]} threads the outcome differs from that with one thread", "")
                if r[0] == "raise":
                    continue
                if env.w.launches or r[0] != "ok":
                    t.judge(env, op, f"{dt}, {tag}, grid {grid}", ("ok", None) if r[0] == "ok" else r, None)
    env = Env("cupy")
    rel = "thinc/backends/_custom_kernels.py"

    def names(e):
        m = e.mod(rel)
        out = []
        for n in list(m.defs):
            v = m.get(n)
            if getattr(getattr(v, "cls", None), "name", "") == "LazyKernel":
                out.append((n, v))
        return out
    r = run(env, names)
    if r[0] != "ok":
        ck.unit("scenarios not read")
        return
    for n, v in r[1]:
        e2 = run(env, lambda e: e.w.ev.call(e.attr(v, "_compile_kernel"), [], {}))
        if e2[0] == "unsup":
            ck.unit("scenarios not read")
            continue
        ck.instance("cuda-kernels", n)
        if e2[0] in ("viol", "raise"):
            ck.anchor = f"{rel}:{n}"
            ck.finding("cuda-kernels", Node(rel), f"{n}: {e2[1]} {e2[2]}", construct=n, key=n)
            ck.anchor = None


def keyed(x):
    """Comparable form of an outcome."""
    if isinstance(x, list):
        return tuple(keyed(y) for y in x)
    if isinstance(x, np.ndarray):
        return (x.shape, tuple(keyed(c) for c in x.reshape(-1)))
    if isinstance(x, P):
        return tuple(sorted(((tuple(sorted((atom_key(i), q) for i, q in k)), c) for k, c in x.m.items()), key=repr))
    return "<uninitialised>" if x is UNINIT else x


def atom_key(i):
    """Structure of an application, without the numbering of this analysis."""
    t = A.tab[i]
    return t if t[0] == "sym" else (t[0],) + tuple(tuple(sorted(((tuple(sorted((atom_key(j), q) for j, q in k)), c) for k, c in a), key=repr)) for a in t[1:])


# ---- allocation, reshaping, conversion ------------------------------------------

FAMILY = re.compile(r"^(alloc|reshape|asarray)(?:_)?([1-4]?)([fi]?)$")
DIMS = {0: (2, 3), 1: (6,), 2: (3, 2), 3: (1, 3, 2), 4: (3, 1, 2, 1)}
OTHER = {"f": "float64", "i": "int64", "": "float64"}
FIRST = {"f": "float32", "i": "int32"}


def family(env):
    out = {}
    c = env.ops.cls
    for k in c.mro():
        for n in k.table:
            m = FAMILY.match(n)
            if m:
                out.setdefault(n, (m[1], int(m[2] or 0), m[3]))
    return sorted(out.items())


def on(env, got, dtype=None):
    if not isinstance(got, Arr):
        return f"the result is {type(got).__name__}, not an array"
    if got.dev != env.dev:
        return "the result is not on the device of the backend"
    if dtype and got.dtype != DT(dtype):
        return f"the result holds {got.dtype}, {dtype} expected"
    return None


def numbers(env, got, dtype, shape):
    """The numbers 1, 2, 3 … in C order."""
    b = on(env, got, dtype)
    return b or compare(got, arr(shape, lambda *i: int(np.ravel_multi_index(i, shape)) + 1))


def nested(shape, n=None):
    n = [0] if n is None else n
    if not shape:
        n[0] += 1
        return n[0]
    return [nested(shape[1:], n) for _ in range(shape[0])]


def rule_alloc(p, ck):
    ck.rule("array-helpers", "alloc*, reshape* and asarray* give the shape, element type, contents and device their name and arguments say; as_contig and to_numpy keep the contents", minimum=150)
    t = Tally(ck, "array-helpers")

    def case(kind, op, tag, f):
        env = Env(kind, "float32", wit=zig)
        st = {}

        def go(e):
            a, k, st["want"] = f(e)
            return e.call(op, *a, **k)
        r = run(env, go)
        t.judge(env, op, tag, r, (lambda g: st["want"](g)) if r[0] == "ok" else None)
    for kind in ALL:
        e0 = Env(kind)
        r = run(e0, family)
        if r[0] != "ok":
            ck.unit("scenarios not read")
            continue
        ck.unit("helpers", len(r[1]))
        for name, (what, nd, letter) in r[1]:
            sh = DIMS[nd]
            dims = sh if nd else (sh,)
            d0, o = FIRST.get(letter, "float32"), OTHER[letter]
            if what == "alloc":
                for dt in (None, o):
                    for z in (None, True, False):
                        kw = {**({"dtype": dt} if dt else {}), **({} if z is None else {"zeros": z})}

                        def f(e, z=z, kw=kw, dt=dt, dims=dims, sh=sh):
                            def ok(g):
                                b = on(e, g, dt or d0)
                                if b or tuple(g.d.shape) != sh:
                                    return b or f"the result has shape {tuple(g.d.shape)}, {sh} expected"
                                return compare(g, zeros(*sh)) if z is not False else None
                            return dims, kw, ok
                        case(kind, name, f"dtype {dt}, zeros {z}", f)
                if not nd:
                    case(kind, name, "one number as shape", lambda e: ((3,), {}, lambda g: on(e, g, d0) or compare(g, zeros(3))))
            elif what == "reshape":
                for src in ((2, 3), (6,), sh):
                    def f(e, src=src, dims=dims, sh=sh):
                        X = e.X("x", *src)
                        return (X,) + dims, {}, lambda g: on(e, g, "float32") or compare(g, X.d.reshape(sh))
                    case(kind, name, f"from {src} to {sh}", f)
            else:
                dflt = FIRST.get(letter)
                for dt in (None, o):
                    kw = {"dtype": dt} if dt else {}
                    case(kind, name, f"nested lists, dtype {dt}", lambda e, kw=kw, dt=dt, sh=sh: ((nested(sh),), kw, lambda g: numbers(e, g, dt or dflt, sh)))
                    for src in ("int32", "int64", "float32", "float64"):
                        for dev in {"np", e0.dev}:
                            def f(e, src=src, dev=dev, kw=kw, dt=dt, sh=sh):
                                want = dt or dflt or src
                                return (e.N(np.arange(1, 7).reshape(sh), src, dev),), kw, lambda g: numbers(e, g, want, sh)
                            case(kind, name, f"{src} array on {'the device' if dev == 'cp' else 'the host'}, dtype {dt}", f)
        for vname, v in [("plain", lambda a: a)] + VARIANTS[:3]:
            for dt in (None, "float32", "float64"):
                def f(e, v=v, dt=dt):
                    X = v(e.X("x", 2, 3))

                    def ok(g):
                        return on(e, g, dt or "float32") or compare(g, X.d) or (None if g.contig else "the result is not contiguous")
                    return (X,), ({"dtype": dt} if dt else {}), ok
                case(kind, "as_contig", f"{vname}, dtype {dt}", f)
        for dt in ("float32", "int64"):
            def f(e, dt=dt):
                X = e.X("x", 2, 3, dt="float32") if dt == "float32" else e.N([[1, 2, 3], [4, 5, 6]], dt)

                def ok(g):
                    if not isinstance(g, Arr) or g.dev != "np":
                        return "the result is not a NumPy array"
                    return f"the result holds {g.dtype}" if g.dtype != DT(dt) else compare(g, X.d)
                return (X,), {}, ok
            case(kind, "to_numpy", f"{dt} array", f)


# ---- batches --------------------------------------------------------------------

class Sizes:
    """A generator of batch sizes, as the caller would pass."""

    def __init__(self, vals):
        self.vals, self.i = vals, 0

    def __iter__(self):
        return self

    def __next__(self):
        v = self.vals[min(self.i, len(self.vals) - 1)]
        self.i += 1
        return v


def expect_sizes(n, vals):
    out, i = [], 0
    while n > 0:
        s = int(vals[min(i, len(vals) - 1)])
        out.append(min(s, n))
        n -= s
        i += 1
    return out


def items(e, x):
    """The items a batch holds, in order."""
    if isinstance(x, Arr):
        return [tuple(np.asarray(r, object).reshape(-1)) for r in x.d]
    if isinstance(x, (list, tuple)):
        return [tuple(y.d.reshape(-1)) if isinstance(y, Arr) else (y,) for y in x]
    cls = getattr(getattr(x, "cls", None), "name", None)
    if cls == "Pairs":
        return list(zip(items(e, e.attr(x, "one")), items(e, e.attr(x, "two"))))
    if cls == "Ragged":
        rows, out = items(e, e.attr(x, "data")), []
        for s, t in starts([int(v) for v in e.attr(x, "lengths").d]):
            out.append(tuple(rows[s:t]))
        return out
    raise Unsup(f"batch of {type(x).__name__}")


def sequences(e, kind, n, tag):
    if kind == "list":
        return [e.X(f"{tag}{i}_", 2) for i in range(n)]
    if kind == "tuple":
        return tuple(e.X(f"{tag}{i}_", 2) for i in range(n))
    if kind == "vector":
        return e.X(tag, n)
    if kind == "matrix":
        return e.X(tag, n, 2)
    T = "thinc/types.py"
    if kind == "pairs":
        return e.fn(T, "Pairs", e.X(f"{tag}a", n, 1), e.X(f"{tag}b", n, 2))
    ls = ([1, 0, 2, 1, 3, 2, 1] * 2)[:n]
    return e.fn(T, "Ragged", e.X(tag, sum(ls), 2), e.N(ls))


SEQS = ["list", "tuple", "vector", "matrix", "pairs", "ragged"]


def rule_batch(p, ck):
    deep = ck.tier == "thorough"
    ck.rule("batching", "minibatch and multibatch yield every item exactly once, in order unless shuffled, in batches of the sizes asked for, as many as their length says, whatever the buffer, again on every "
            "iteration; the batches of several sequences stay aligned, and the sequence itself is left as it was", minimum=100)
    t = Tally(ck, "batching")
    one, half_ = [Fraction(3, 2)], [Fraction(5, 2), Fraction(13, 10), Fraction(27, 10)]
    plans = [1, 2, 3, 7, [2, 1, 3], [1, 4], one, half_, [Fraction(3)]]
    for kind in ALL:
        for seq in SEQS:
            for n in (5, 1, 0) + ((7, 4) if deep else ()):
                if n == 0 and seq == "ragged":
                    continue
                for plan in plans if n == 5 or deep else [2, [1, 4]]:
                    for sh in (False, True):
                        for buf in ((1, 2, 10) if seq == "list" else (2,)):
                            batch_case(t, kind, seq, n, plan, sh, buf)


def batch_case(t, kind, seq, n, plan, shuffle, buf):
    for op in ("minibatch", "multibatch"):
        env = Env(kind, "float32", wit=zig)

        def go(e):
            S = sequences(e, seq, n, "x")
            rest = [sequences(e, s, n, "y") for s in (("list", "matrix") if op == "multibatch" else ())]
            every = [items(e, s) for s in [S] + rest]
            size = plan if isinstance(plan, int) else Sizes(plan)
            got = e.call(op, size, S, *rest, shuffle=shuffle, buffer=buf)
            want = expect_sizes(n, [plan] if isinstance(plan, int) else plan)
            m = e.w.ev.len_(got)
            if m != len(want):
                return f"the length is {m}, {len(want)} batches expected"
            for round_ in (1, 2):
                out = e.w.ev.iter(got)
                cols = [[b] for b in out] if op == "minibatch" else [list(b) for b in out]
                if any(len(c) != 1 + len(rest) for c in cols):
                    return "a batch does not hold one part per sequence"
                parts = [[items(e, b) for b in c] for c in cols]
                sizes = [len(c[0]) for c in parts]
                if sizes != want:
                    return f"iteration {round_} gives batches of {sizes} items, {want} expected"
                flat_ = [list(z) for c in parts for z in zip(*c)]
                if any(len(x) != len(c[0]) for c in parts for x in c):
                    return "the parts of a batch have different lengths"
                full = [list(z) for z in zip(*every)]
                if not shuffle and flat_ != full:
                    return f"iteration {round_}: the items are not those of the sequence, in its order"
                if shuffle:
                    for x in full:
                        if sum(1 for y in flat_ if y == x) != 1:
                            return f"iteration {round_}: an item comes {sum(1 for y in flat_ if y == x)} times, or not with its counterpart"
            if [items(e, s) for s in [S] + rest] != every:
                return "the sequence itself is changed"
            return None
        r = run(env, go)
        if r[0] == "ok" and r[1]:
            r = ("viol", r[1], "")
        pl = plan if isinstance(plan, int) else "generator " + ", ".join(str(float(x)) for x in plan)
        t.judge(env, op, f"{n} items in a {seq}, size {pl}, shuffle {shuffle}, buffer {buf}", r, None)


# ---- SparseLinear ---------------------------------------------------------------

SPARSE = "thinc/layers/sparselinear.pyx"


def murmur32(key, seed):
    """MurmurHash3_x86_32 of the eight bytes of a key."""
    M = 0xFFFFFFFF
    h = seed
    for k in (key & M, key >> 32):
        k = k * 0xCC9E2D51 & M
        k = (k << 15 | k >> 17) & M
        h ^= k * 0x1B873593 & M
        h = (h << 13 | h >> 19) & M
        h = (h * 5 + 0xE6546B64) & M
    h ^= 8
    h ^= h >> 16
    h = h * 0x85EBCA6B & M
    h ^= h >> 13
    h = h * 0xC2B2AE35 & M
    return h ^ h >> 16


def sparse_model(e, nO, length, v1, W, b):
    grads = {}

    def inc(n, g):
        grads.setdefault(n, []).append(g)
    dims, params = {"nO": nO, "length": length}, {"W": W, "b": b}
    return Lib({"get_dim": lambda n: dims[n], "get_param": lambda n: params[n], "inc_grad": inc, "ops": e.ops, "attrs": {"v1_indexing": v1}, "name": "sparse_linear"}), grads


def s_sparse(keys, vals, lens, nO, length, v1, W, b):
    out = zeros(len(lens), nO)
    for r, (s, t) in enumerate(starts(lens)):
        for o in range(nO):
            x = b[o]
            for i in range(s, t):
                for h in (murmur32(keys[i], 0), murmur32(keys[i], 1)):
                    x = x + W[(h & (length - 1)) + o if v1 else o * length + h % length] * vals[i]
            out[r, o] = x
    return out


KEYS = [1, 2 ** 63 + 5, 77, 12345678901234567890, 1, 2 ** 32, 9, 10]


def rule_sparse(p, ck):
    deep = ck.tier == "thorough"
    ck.rule("sparse-linear", "SparseLinear adds, for every key, the two weights its hashes select times its value; its backward pass is the transposed map; it stays within its arrays and rejects what does not fit",
            minimum=30)
    t = Tally(ck, "sparse-linear")

    def judge(env, tag, r, want=None):
        inst = f"SparseLinear: {tag}"
        if r[0] == "unsup":
            ck.unit("scenarios not read")
            ck.units.setdefault("not read", {}).setdefault(f"sparse: {r[1]}"[:140], 0)
            return
        ck.instance("sparse-linear", inst)
        bad = {"viol": lambda: f"{r[1]} [in {r[2]}]", "raise": lambda: f"a valid input is rejected with {r[1]}: {r[2]}", "ok": lambda: want(r[1]) if want else None}[r[0]]()
        if bad:
            ck.anchor = f"{SPARSE}:SparseLinear"
            ck.finding("sparse-linear", Node(SPARSE), f"{tag}: {bad}", construct="SparseLinear", key=f"sparse|{tag.split(',')[0]}")
            ck.anchor = None
    for v1 in (False, True):
        for lens in [[3], [2, 1], [1, 0, 2], [0]] + ([[2, 3, 1, 2]] if deep else []):
            for nO, length in [(1, 4), (2, 4), (3, 2)] + ([(2, 8), (2, 5), (1, 1)] if not v1 or deep else []):
                n = sum(lens)
                for vname, v in [("plain", None)] + VARIANTS[1:4]:
                    env = Env("numpy", "float32", wit=zig)

                    def go(e):
                        W, b = e.X("w", nO * length), e.X("b", nO)
                        keys, vals, ls = e.N(np.array(KEYS[:n], dtype="uint64"), "uint64"), e.X("v", n), e.N(np.array(lens))
                        want = s_sparse(KEYS[:n], vals.d, lens, nO, length, v1, W.d, b.d)
                        if v:
                            keys, vals, ls = (Arr(keys.d, "int64"), v(vals), v(ls)) if v is retyped and n < 2 else (keys if v is retyped else v(keys), v(vals), v(ls))
                        m, grads = sparse_model(e, nO, length, v1, W, b)
                        Y, back = e.fn(SPARSE, "forward", m, (keys, vals, ls), True)
                        bad = compare(Y, want, "float32", path="scores")
                        if bad:
                            return bad
                        dY = e.X("g", len(lens), nO)
                        e.w.ev.call(back, [dY], {})
                        if [len(grads.get(k, ())) for k in ("W", "b")] != [1, 1]:
                            return "the gradients of W and b are not both accumulated once"
                        return compare(grads["W"][0], transpose(want, W.d, dY.d), path="the gradient of W") or compare(grads["b"][0], transpose(want, b.d, dY.d), path="the gradient of b")
                    judge(env, f"{'v1' if v1 else 'v2'} indexing, lengths {lens}, {nO}x{length} weights, arguments {vname}", run(env, go), lambda x: x)
    for lens, n, rows, cols, nv in [x + (x[1],) for x in [([3], 2, 1, 2), ([-1, 3], 3, 2, 2), ([2, 2], 3, 2, 2), ([2], 2, 0, 2), ([2, 1], 3, 1, 2), ([2], 2, 1, 1), ([2], 2, 2, 2), ([2], 2, 1, 3), ([2, 1], 3, 2, 1), ([2 ** 31 - 1, 1], 2, 2, 2), ([], 0, 0, 2)]] + [([3], 3, 1, 2, 2), ([1, 2], 3, 2, 2, 0), ([2], 2, 1, 2, 3)]:
        env = Env("numpy", "float32", wit=zig)

        def go(e):
            m, _ = sparse_model(e, 2, 4, False, e.X("w", 8), e.X("b", 2))
            Y, back = e.fn(SPARSE, "forward", m, (e.N(np.array(KEYS[:n], dtype="uint64"), "uint64"), e.X("v", nv), e.N(np.array(lens, dtype=int))), True)
            e.w.ev.call(back, [e.X("g", rows, cols)], {})
            if (rows, cols) != (len(lens), 2) or sum(lens) > min(n, nv):
                return "arguments that do not fit are accepted"
        r = run(env, go)
        judge(env, f"lengths {lens}, {n} keys, {nv} values, a gradient of shape {(rows, cols)}", ("ok", None) if r[0] == "raise" else r, lambda x: x)
