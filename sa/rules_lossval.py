"""Rules on what the losses and their targets compute, decided cell by cell."""
from fractions import Fraction

import numpy as np

from .cellval import P, Unsup, close, deriv, fun, show, symname
from .cellarr import Arr
from .cellscen import Node, arr, compare, run
from .nnscen import Net, clone
from .rules_nn import same

LOSS = "thinc/loss.py"
UTIL = "thinc/util.py"
F = Fraction
EPS = F(1, 10 ** 8)


def loss(e, cls, how, **kw):
    if how == "class":
        return e.run(e.get(LOSS, cls), **kw)
    return e.run(e.get(LOSS, how), **kw)


def one_hot(labels, n, ls=F(0)):
    return arr((len(labels), n), lambda i, j: (1 - ls if labels[i] % n == j else (ls / (n - 1) if ls else F(0))))


def cc(G, T, M, n):
    """Gradient of the crossentropy for guesses, targets and a mask; n: what to divide by."""
    return arr(G.shape, lambda i, j: (G[i, j] - T[i, j]) * M[i, j] / n)


def sumsq(g):
    t = F(0)
    for c in g.ravel():
        t = t + c * c
    return t


class Case:
    def __init__(self, name, labels, mask=None, target=None, **settings):
        self.name, self.labels, self.mask, self.target, self.settings = name, labels, mask, target, settings


NAMES = ["a", "b", "c"]


def cases():
    """Truths of one kind with the rows and cells that count."""
    yield Case("labels", ("ints", [2, 0, 1, 2]))
    yield Case("list of labels", [2, 0, 1, 2])
    yield Case("list of labels with a missing value", [2, 0, 1, 0], [0, 3 - 2], missing_value=0)
    yield Case("labels with a missing value", ("ints", [2, 0, 1, 0]), missing_value=0)
    yield Case("labels, none of them missing", ("ints", [2, 1, 1, 1]), missing_value=0)
    yield Case("list of labels with another missing value", [2, 0, 1, 2], missing_value=2)
    yield Case("names", ["c", "a", "b", "c"], names=NAMES)
    yield Case("names with a missing value", ["c", "", "b", ""], names=NAMES, missing_value="")
    yield Case("names with a missing name", ["c", "a", "b", "c"], names=NAMES, missing_value="a")
    yield Case("negated names", ["!c", "a", "!a", "b"], names=NAMES, neg_prefix="!")
    yield Case("negated and missing names", ["!b", "", "c", "!c"], names=NAMES, neg_prefix="!", missing_value="")
    yield Case("names with a longer negation prefix", ["not-c", "a", "not-a", "b"], names=NAMES, neg_prefix="not-")
    yield Case("names that hold the negation prefix", ["!n!t", "n!t", "!!t", "t", "!t"], names=["n!t", "!t", "t"], neg_prefix="!")
    yield Case("names in another order", ["c", "a", "!b", "", "b"], names=["c", "a", "b"], neg_prefix="!", missing_value="")
    yield Case("names that are not given", ["c", None, "b"], names=NAMES)
    yield Case("no names", [], names=NAMES)
    yield Case("labels and names", ("ints", [2, 0, 1, 2]), names=NAMES)
    yield Case("smoothed labels", ("ints", [2, 0, 1, 2]), label_smoothing=F(1, 4))
    yield Case("smoothed names", ["c", "a", "b", "c"], names=NAMES, label_smoothing=F(1, 10))
    yield Case("smoothed and missing labels", [1, 0, 1, 2], missing_value=1, label_smoothing=F(1, 10))
    yield Case("smoothed, negated and missing names", ["!b", "", "c", "a"], names=NAMES, neg_prefix="!", missing_value="", label_smoothing=F(1, 5))
    yield Case("one label", [1])
    yield Case("twenty labels", [k * k % 3 for k in range(20)])
    yield Case("twenty names", [["a", "!b", "", "c"][k % 4] for k in range(20)], names=NAMES, neg_prefix="!", missing_value="")
    yield Case("probabilities", ("floats", 3))
    yield Case("probabilities with names", ("floats", 3), names=NAMES)
    yield Case("probabilities with a missing value", ("floats", 4), missing_value=1)


def expected(c, n=3):
    """Targets and mask of a case, as numbers; None for the targets when they are given."""
    s = c.settings
    lab = c.labels
    if isinstance(lab, tuple) and lab[0] == "floats":
        return None
    lab = lab[1] if isinstance(lab, tuple) else lab
    miss, neg = s.get("missing_value"), s.get("neg_prefix")
    names = s.get("names", NAMES)
    T = np.empty((len(lab), n), object)
    M = np.empty((len(lab), n), object)
    ls = s.get("label_smoothing", F(0))
    for i, v in enumerate(lab):
        m, negated = [F(1)] * n, False
        if v == miss:
            m = [F(0)] * n
            k = 0
        elif isinstance(v, str) and neg and v.startswith(neg):
            k = names.index(v[len(neg):])
            negated = True
            m = [F(int(j == k)) for j in range(n)]
        else:
            k = names.index(v) if isinstance(v, str) else v
        T[i] = one_hot([k], n, ls)[0]
        if negated:
            T[i, k] = F(0)
        M[i] = m
    return T, M


def truths(e, c, tag="t"):
    lab = c.labels
    if isinstance(lab, tuple) and lab[0] == "ints":
        return e.N(lab[1])
    if isinstance(lab, tuple):
        T = e.X(tag, lab[1], 3)
        if c.settings.get("missing_value") is not None:
            T.d[...] = arr(T.shape, lambda i, j: F([5, 2, 3][(i + j) % 3], 10))
        return T
    return list(lab)


def target_of(c, T):
    """Targets and mask once the truths are there."""
    x = expected(c)
    if x is not None:
        return x
    M = np.empty(T.shape, object)
    M[...] = F(1)
    miss = c.settings.get("missing_value")
    if miss is not None:
        for i in range(len(M)):
            if list(T.d[i]).index(max(T.d[i])) == miss:
                M[i] = F(0)
    return T.d, M


def report(ck, rule, tag, construct, r, file=LOSS):
    if r[0] == "unsup":
        ck.unit("scenarios not read")
        ck.units.setdefault("not read", {}).setdefault(f"{tag}: {r[1]}"[:140], 0)
        return
    ck.instance(rule, tag)
    text = f"raises {r[1]}: {r[2]}" if r[0] == "raise" else r[1]
    if text:
        ck.anchor = f"{file}:{construct}"
        ck.finding(rule, Node(file, 1), f"{tag}: {text}", construct=construct, key=text.split(" is ")[0].split("[")[0])
        ck.anchor = None


def outcome(e, o, G, T, grad, value):
    """The three entry points give the expected gradient and value; the arguments stay."""
    G0, T0 = clone(G), clone(T)
    g, v = e.run(o, G, T)
    for what, got, want in (("the gradient", g, grad), ("the loss", v, value), ("get_grad", e.do(o, "get_grad", G, T), grad), ("get_loss", e.do(o, "get_loss", G, T), value)):
        r = compare(got, want, path=what)
        if r:
            return r
    for a in (g if isinstance(g, (list, tuple)) else [g]):
        if isinstance(a, Arr) and (a.dtype.name != "float32" or a.dev != e.dev):
            return f"the gradient holds {a.dtype.name} on {a.dev}"
    for what, a, b in (("the guesses", G, G0), ("the truths", T, T0)):
        r = same(a, b, what) if not isinstance(a, (str, int)) else None
        if r:
            return r


VERSIONS = {"CategoricalCrossentropy": [("configure_CategoricalCrossentropy_v1", ("normalize", "names", "missing_value")),
                                        ("configure_CategoricalCrossentropy_v2", ("normalize", "names", "missing_value", "neg_prefix")),
                                        ("configure_CategoricalCrossentropy_v3", ("normalize", "names", "missing_value", "neg_prefix", "label_smoothing"))],
            "SequenceCategoricalCrossentropy": [("configure_SequenceCategoricalCrossentropy_v1", ("normalize", "names")),
                                                ("configure_SequenceCategoricalCrossentropy_v2", ("normalize", "names", "neg_prefix")),
                                                ("configure_SequenceCategoricalCrossentropy_v3", ("normalize", "names", "missing_value", "neg_prefix", "label_smoothing"))]}


def hows(cls, settings):
    yield "class"
    for n, takes in VERSIONS[cls]:
        if all(k in takes for k in settings):
            yield n


def rows_of(c):
    lab = c.labels
    return lab[1] if isinstance(lab, tuple) and lab[0] == "floats" else len(lab[1] if isinstance(lab, tuple) else lab)


def rule_losses(p, ck):
    ck.rule("loss", "Every loss, as a class and as every registered version that takes the settings, for truths of every kind (labels as array and list, names, negated, missing and smoothed ones, probabilities), with and without normalization and with the "
            "arrays of both backends: the gradient is (guess - target) in every cell that counts and 0 elsewhere, divided by the number of examples if normalized; the loss is the sum of its squares; calling the loss and the two methods agree; the arguments stay.", minimum=60)
    def off(e):
        G, T = e.X("g", 2, 2), e.X("t", 2, 2)
        return outcome(e, loss(e, "L2Distance", "class"), G, T, arr((2, 2), lambda i, j: G.d[i, j] - T.d[i, j]), F(0))
    r = run(Net(), off)
    if r[0] != "ok" or not r[1]:
        raise RuntimeError(f"the control is not reported: {r}")
    for kind in ("numpy", "cupy"):
        for c in cases():
            for norm in (None, True, False):
                kw = dict(c.settings) if norm is None else dict(c.settings, normalize=norm)
                div = norm is not False
                for how in hows("CategoricalCrossentropy", kw):
                    def f(e):
                        o = loss(e, "CategoricalCrossentropy", how, **kw)
                        G, T = e.X("g", rows_of(c), 3), truths(e, c)
                        t, m = target_of(c, T)
                        want = cc(G.d, t, m, rows_of(c) if div else 1)
                        return outcome(e, o, G, T, want, sumsq(want))
                    report(ck, "loss", f"{kind} {how if how != 'class' else 'CategoricalCrossentropy'}, {c.name}, {'' if div else 'not '}normalized" + (" by default" if norm is None else ""), "CategoricalCrossentropy", run(Net(kind), f))
        one = {c.name: c for c in cases()}
        seqs = [("labels", "list of labels"), ("names", "negated names"), ("names with a missing value", "negated and missing names"), ("smoothed names", "names"), ("probabilities", "labels", "one label"),
                ("labels with a missing value", "list of labels with a missing value"), ("smoothed labels", "smoothed and missing labels"), (), ("twenty labels",), ("twenty names", "names")]
        for names in seqs:
            cs = [one[n] for n in names]
            st = {}
            for c in cs:
                st.update(c.settings)
            same_settings = [Case(c.name, c.labels, **{k: v for k, v in st.items()}) for c in cs]
            for norm in (None, True, False):
                kw = dict(st) if norm is None else dict(st, normalize=norm)
                div = norm is not False
                for how in hows("SequenceCategoricalCrossentropy", kw):
                    def f(e):
                        o = loss(e, "SequenceCategoricalCrossentropy", how, **kw)
                        Gs, Ts, want = [], [], []
                        for k, c in enumerate(same_settings):
                            G, T = e.X(f"g{k}q", rows_of(c), 3), truths(e, c, f"t{k}q")
                            t, m = target_of(c, T)
                            Gs.append(G)
                            Ts.append(T)
                            want.append(cc(G.d, t, m, len(cs) if div else 1))
                        total = F(0)
                        for w in want:
                            total = total + sumsq(w)
                        return outcome(e, o, Gs, Ts, want, total)
                    report(ck, "loss", f"{kind} {how if how != 'class' else 'SequenceCategoricalCrossentropy'}, {' and '.join(names) or 'no sequences'}, {'' if div else 'not '}normalized" + (" by default" if norm is None else ""), "SequenceCategoricalCrossentropy", run(Net(kind), f))
        for n, w in ((3, 2), (1, 3)):
            for norm in (None, True, False):
                kw = {} if norm is None else dict(normalize=norm)
                for how in ("class", "configure_L2Distance"):
                    def f(e):
                        o = loss(e, "L2Distance", how, **kw)
                        G, T = e.X("g", n, w), e.X("t", n, w)
                        want = arr((n, w), lambda i, j: (G.d[i, j] - T.d[i, j]) / (n if norm is not False else 1))
                        return outcome(e, o, G, T, want, sumsq(want))
                    report(ck, "loss", f"{kind} {how if how != 'class' else 'L2Distance'} of {n}x{w}, {'not ' if norm is False else ''}normalized" + (" by default" if norm is None else ""), "L2Distance", run(Net(kind), f))
        for n, w in ((3, 2), (1, 3)):
            for norm in (None, True, False):
                for ign in (None, True, False):
                    kw = {k: v for k, v in (("normalize", norm), ("ignore_zeros", ign)) if v is not None}
                    for how in ("class", "configure_CosineDistance"):
                        def f(e):
                            o = loss(e, "CosineDistance", how, **kw)
                            G, T = e.X("g", n, w), e.X("t", n, w)
                            T.d[n - 1] = F(0)
                            total, d = F(0), np.empty((n, w), object)
                            for i in range(n):
                                y, t = [c + EPS for c in G.d[i]], [c + EPS for c in T.d[i]]
                                c = dot(y, t) / (fun("sqrt", dot(y, y)) * fun("sqrt", dot(t, t)))
                                keep = not (ign and i == n - 1)
                                for j in range(w):
                                    d[i, j] = -deriv(c, symname(G.d[i, j])) / (n if norm is not False else 1) if keep else F(0)
                                total = total + ((1 - c) / (n if norm is not False else 1) if keep else 0)
                            return outcome(e, o, G, T, d, total)
                        report(ck, "loss", f"{kind} {how if how != 'class' else 'CosineDistance'} of {n}x{w}, " + ", ".join(f"{k}={v}" for k, v in kw.items()), "CosineDistance", run(Net(kind), f))


def dot(a, b):
    t = F(0)
    for x, y in zip(a, b):
        t = t + x * y
    return t


def rule_targets(p, ck):
    ck.rule("targets", "to_categorical gives for labels of one and two dimensions, as arrays of either backend, a row per label: 1 - smoothing for the class, smoothing / (classes - 1) for the others, in 32-bit floats, with the classes last; without a number of classes the "
            "highest label decides.", minimum=10)
    for kind in ("numpy", "cupy"):
        for lab in ([2, 0, 1], [0], [[1, 0], [2, 2]], [0, 0]):
            for n in (None, 3, 5, 2, 1):
                top = int(np.max(lab)) + 1
                if n is not None and n < top:
                    continue
                for ls in (None, F(0), F(1, 10), F(1, 4)):
                    k = n or top
                    if ls and (k < 2 or ls >= F(k - 1, k)):
                        continue
                    kw = {x: y for x, y in (("n_classes", n), ("label_smoothing", ls)) if y is not None}

                    def f(e):
                        Y = e.N(lab)
                        got = e.run(e.get(UTIL, "to_categorical"), Y, **kw)
                        want = one_hot(list(np.array(lab).ravel()), k, ls or F(0)).reshape(np.array(lab).shape + (k,))
                        return compare(got, want, "float32", "the matrix")
                    report(ck, "targets", f"{kind} to_categorical({lab}" + "".join(f", {x}={y}" for x, y in kw.items()) + ")", "to_categorical", run(Net(kind), f), UTIL)
