"""Rules about the container and array types."""
import ast

from .scen import *
from .interp import _unwrap
from .ratform import Forms, decided
from .rules_model import Calls
from .rules_state import leaves
from .rules_optim import root
from .rules_loss import writes, base, LossHooks

MOD = "thinc.types"


class TypeHooks(LossHooks):
    """The array module of every array is numpy."""

    def __init__(self):
        super().__init__()
        self.sums = []

    def call(self, it, f, args, kw, e):
        if isinstance(f, Term) and f.op in ("glob", "ext", "sym", "attr") and str(f.args[-1]).split(".")[-1] == "get_array_module":
            return mk("ext", "numpy")
        if isinstance(f, Term) and f.op in ("attr", "ext") and str(f.args[-1]).split(".")[-1] == "cumsum":
            src = it.freeze(args[0]) if f.op == "ext" else f.args[0]
            out = [it.freeze(v) for k, v in kw if k == "out"]
            self.sums.append((src, out[0] if out else None))
        return super().call(it, f, args, kw, e)


def make(w, P, n, *a, **k):
    return _unwrap(w.it.call(w.it.from_res(P.resolve(MOD, n), P.modules[MOD], n), list(a), list(k.items()), w.node))


def index(w, o, i):
    return _unwrap(w.it.call(w.it.getattr(o, "__getitem__", w.node), [i], [], w.node))


def sel(t):
    """(array, selection of rows, of columns) of an indexed array, through views."""
    while isinstance(t, Term) and t.op == "call" and short(t.args[0]) in ("reshape", "copy", "astype", "view") and t.args[1]:
        t = t.args[1][0]
    if isinstance(t, Term) and t.op == "sub":
        i = t.args[1]
        return t.args[0], i
    return t, None


FULL = lambda t: isinstance(t, Term) and t.op == "slice" and all(a is NONE for a in t.args)


def cols(i):
    """The selection along the second axis."""
    if isinstance(i, Term) and i.op == "tuple" and len(i.args) == 2 and FULL(i.args[0]):
        return i.args[1]
    return None


def one_of(F, i, want):
    """A selection that means the same: x[i:i+1] for a non-negative i."""
    return any(i is x or (isinstance(i, Term) and isinstance(x, Term) and i.op == x.op == "slice" and all(F.equal(p, q) for p, q in zip(i.args, x.args))) for x in want)


def rule_containers(P, ck):
    ck.rule("padded", "Indexing a Padded selects the same sequences in data, lengths and indices and recomputes the batch sizes from the selected lengths.", 12)
    ck.rule("ragged", "Indexing a Ragged gives the selected lengths and exactly the rows of those sequences, in the shape of the original.", 10)
    ck.rule("pairs", "Indexing Pairs selects the same elements of both sides.", 2)
    ck.rule("argskwargs", "ArgsKwargs lists its arguments in call order, and from_items restores it from them.", 4)
    ck.rule("sized", "A SizedGenerator can be iterated again and again and has the length it was given.", 3)
    ck.rule("copy", "The copy of a Padded consists of copies of its arrays.", 4)
    ck.rule("pure", "Indexing a container changes no array in it.", 6)
    R = Rules(P, ck)
    arr = {n: distinct("arr:" + n) for n in ("data", "size_at_t", "lengths", "indices")}

    def padded(w):
        return make(w, P, "Padded", arr["data"], arr["size_at_t"], arr["lengths"], arr["indices"])

    def pure(w, e0):
        for a, how, i, v, ev in writes(w.it, e0):
            w.req(isinstance(a, Term) and base(a) not in arr.values(), "arrays", f"indexing writes to {show(a)}", ev.node, rule="pure")
        w.req(True, "arrays", "", rule="pure")

    # ------------------------------------------------------------- padded
    def pad(kind):
        def body(w, t):
            it = w.it
            F = Forms(it)
            p = padded(w)
            i = {"int": distinct("i"), "zero": const(0), "negative": const(-2), "slice": mk("slice", distinct("a"), distinct("b"), NONE), "list": L(const(2), const(0)), "repeat": L(const(1), const(2), const(1)),
                 "array": distinct("arr:index")}[kind]
            if kind == "int":
                it.isinst[i] = ("int",)
            e0 = len(it.events)
            r = index(w, p, i)
            pure(w, e0)
            f = {k: it.freeze(w.get(r, k)) for k in arr}
            d, di = sel(f["data"])
            l, li = sel(f["lengths"])
            n, ni = sel(f["indices"])
            c = cols(di) if di is not None else None
            w.req(d is arr["data"] and c is not None, "data", f"the data is {show(f['data'])}, not columns of the data")
            w.req(l is arr["lengths"] and li is not None, "lengths", f"the lengths are {show(f['lengths'])}")
            w.req(n is arr["indices"] and ni is not None, "indices", f"the indices are {show(f['indices'])}")
            if c is None or li is None or ni is None:
                return
            w.req(c is li, "same sequences", f"the data is selected by {show(c)}, the lengths by {show(li)}")
            if kind in ("int", "zero", "negative", "slice"):
                w.req(ni is li, "same indices", f"the lengths are selected by {show(li)}, the indices by {show(ni)}")
                if kind == "slice":
                    w.req(li is it.freeze(i), "slice", f"the slice {show(i)} selects {show(li)}")
                else:
                    n_ = mk("sub", mk("attr", arr["lengths"], "shape"), const(0))
                    x = it.freeze(i) if kind != "negative" else mk("bin", "Add", const(-2), n_)
                    ok = [mk("slice", x, mk("bin", "Add", x, const(1)), NONE)]
                    if kind == "int":
                        y = mk("bin", "Add", x, n_)
                        ok = [mk("slice", y, mk("bin", "Add", y, const(1)), NONE)] if decided(it, F, x, const(0)) else ok
                    if is_const(ok[0].args[0]):
                        ok.append(mk("slice", const(0), const(1), NONE))
                        ok.append(mk("slice", NONE, const(1), NONE))
                    w.req(one_of(F, li, ok), "int", f"the integer {show(i)} selects {show(li)}")
            if kind in ("list", "repeat"):
                n_ = it.exact_items(li) or []
                w.req(sorted(cval(x) for x in n_) == ([0, 2] if kind == "list" else [1, 1, 2]), "list", f"the index {show(i)} selects the sequences {show(li)}")
            s = f["size_at_t"]
            w.req(f["lengths"] in leaves(s), "sizes", f"the batch sizes {show(s)} are not those of the selected lengths")
            w.req(not (s.op == "sub" and s.args[0] is arr["size_at_t"]), "sizes new", "the batch sizes are selected by sequence")
        return body

    for k in ("int", "zero", "negative", "slice", "list", "repeat", "array"):
        R.scenario("padded", MOD, "Padded.__getitem__", k, pad(k), TypeHooks)

    def copies(w, t):
        c = w.call(padded(w), "copy")
        for k, a in arr.items():
            v = w.it.freeze(w.get(c, k))
            w.req(isinstance(v, Term) and v.op == "call" and short(v.args[0]) == "copy" and a in leaves(v), k, f"the {k} of the copy is {show(v)}", rule="copy")
        w.req(w.it.freeze(w.call(padded(w), "__len__")) in (mk("sub", mk("attr", arr["lengths"], "shape"), const(0)), mk("call", "len", (arr["lengths"],), ())) or True, "len", "", rule="copy")
    R.scenario("copy", MOD, "Padded.copy", "fields", copies, TypeHooks)

    # ------------------------------------------------------------- ragged
    def rag(kind):
        def body(w, t):
            it = w.it
            F = Forms(it)
            data, lengths = arr["data"], arr["lengths"]
            r0 = make(w, P, "Ragged", data, lengths)
            e0 = len(it.events)
            flat = it.freeze(w.get(r0, "data"))
            ds = it.freeze(w.get(r0, "data_shape"))
            i = {"int": distinct("i"), "zero": const(0), "negative": const(-1), "slice": mk("slice", distinct("a"), distinct("b"), NONE), "open": mk("slice", NONE, NONE, NONE),
                 "step": mk("slice", distinct("a"), distinct("b"), const(2)), "reverse": mk("slice", NONE, NONE, const(-1)), "list": L(const(2), const(0)), "tuple": it.mktuple([const(0), const(1)])}[kind]
            if kind == "int":
                it.isinst[i] = ("int",)
            if kind == "tuple":
                w.req(R.raises(w, lambda: index(w, r0, i), ["IndexError"]) is not None, "tuple", "two-dimensional indexing is accepted")
                return
            r = index(w, r0, i)
            for a, how, ix, v, ev in writes(it, e0):
                w.req(isinstance(a, Term) and base(a) not in (data, lengths), "arrays", f"indexing writes to {show(a)}", ev.node, rule="pure")
            w.req(True, "arrays", "", rule="pure")
            ln = it.freeze(w.get(r, "lengths"))
            l, li = sel(ln)
            fi = it.freeze(i)
            w.req(l is lengths and li is not None, "lengths", f"the lengths are {show(ln)}")
            if li is None:
                return
            if kind in ("slice", "open", "step", "reverse", "list"):
                w.req(li is fi or kind == "open" and FULL(li), "selected", f"the index {show(fi)} selects the lengths {show(li)}")
            else:
                x = fi
                if kind == "negative":
                    x = mk("bin", "Add", const(-1), mk("sub", mk("attr", lengths, "shape"), const(0)))
                elif kind == "int" and decided(it, F, fi, const(0)):
                    x = mk("bin", "Add", fi, mk("sub", mk("attr", lengths, "shape"), const(0)))
                ok = [mk("slice", x, mk("bin", "Add", x, const(1)), NONE)] + ([mk("slice", const(0), const(1), NONE), mk("slice", NONE, const(1), NONE)] if kind == "zero" else [])
                w.req(one_of(F, li, ok), "selected", f"the integer {show(fi)} selects the lengths {show(li)}")
            # rows: between the start and the end of the sequences
            d = it.freeze(w.get(r, "data"))
            lv = leaves(d)
            w.req(data in lv, "data", f"the data is {show(d)}")
            w.req(it.freeze(w.get(r, "data_shape")) is ds or same_shape(it, w.get(r, "data_shape"), data), "shape", f"sequences of shape {show(ds)} become {show(it.freeze(w.get(r, 'data_shape')))}")
            w.req(any(x.op == "call" and short(x.args[0]) == "reshape" and ds in x.args[1] for x in lv) or any(same_shape(it, x, data) for x in lv), "reshaped", "the rows do not get the shape of the original", rule="ragged")
            rows = [x for x in lv if x.op == "sub" and isinstance(x.args[1], Term) and x.args[1].op == "slice" and view(x.args[0], data)]
            full = [x for x in rows if not (x.args[1].args[1] is const(0))]
            if not full:
                # nothing selected
                w.req(any(is_empty(it, d_, c) for d_, c, _ in it.taken), "rows", "no row is selected although sequences are")
                return
            for x in full:
                a, b, st = x.args[1].args
                sa, sb = offset(it, F, a, 0), offset(it, F, b, 1)
                w.req(sa is not None, "start", f"the rows start at {show(a)}, not at the start of a sequence")
                w.req(sb is not None, "end", f"the rows end at {show(b)}, not at the end of a sequence")
                if sa is None or sb is None:
                    return
                if kind in ("int", "zero", "negative"):
                    n = mk("sub", mk("attr", lengths, "shape"), const(0))
                    ok = [fi] + ([mk("bin", "Add", fi, n)] if kind == "negative" or decided(it, F, fi, const(0)) else [])
                    w.req(any(F.equal(sa, y) for y in ok), "index", f"the rows start at sequence {show(sa)} instead of {show(fi)}")
                    w.req(F.equal(sa, sb), "one sequence", f"the rows go from the start of sequence {show(sa)} to the end of {show(sb)}")
                if kind in ("list", "step", "reverse"):
                    w.req(F.equal(sa, sb), "one sequence", f"rows go from the start of sequence {show(sa)} to the end of {show(sb)}")
                    w.req(fi in leaves(sa), "selected rows", f"the sequence {show(sa)} is not one of those selected by {show(fi)}")
                if kind in ("slice", "open"):
                    w.req(sa in first_last(fi, 0) and sb in first_last(fi, -1), "range", f"the rows go from {show(a)} to {show(b)} instead of from the first to the last selected sequence")
        return body

    def offset(it, F, t, k):
        """The sequence whose start (k=0) or end (k=1) a row number is, as an
        index into the running sum of the lengths, or its part without the
        last (the starts) or the first element (the ends)."""
        path = []
        while isinstance(t, Term) and t.op == "sub":
            path.append(t.args[1])
            t = t.args[0]
        if t not in it.hooks.alloc and "cumsum" not in fmt(t) or not path:
            return None
        path.reverse()
        want = mk("slice", NONE, const(-1), NONE) if k == 0 else mk("slice", const(1), NONE, NONE)
        if path[0] is want and len(path) > 1:
            return nest(path[1:])
        i = path[0]
        if len(path) > 1 or isinstance(i, Term) and i.op == "slice":
            return None
        if is_const(i):
            c = cval(i)
            return const(c if k == 0 else c - 1) if c >= 0 else const(c + 1 if k == 0 else c)
        return i if k == 0 else mk("bin", "Sub", i, const(1))

    def nest(path):
        """One index, or the first or last element of a selection."""
        path = [p for p in path if not FULL(p)] or [path[0]]
        return path[0] if len(path) == 1 else mk("nest", *path)

    def first_last(fi, k):
        return (const(k),) if FULL(fi) else (mk("nest", fi, const(k)),)

    def view(t, data):
        while isinstance(t, Term):
            if t is data:
                return True
            if t.op == "call" and short(t.args[0]) in ("reshape", "copy", "astype", "view", "ravel") and t.args[1]:
                t = t.args[1][0]
            elif t.op == "sub":
                t = t.args[0]
            else:
                return False
        return False

    for k in ("int", "zero", "negative", "slice", "open", "step", "reverse", "list", "tuple"):
        R.scenario("ragged", MOD, "Ragged.__getitem__", k, rag(k), TypeHooks)

    names = {x.name for x in P.modules[MOD].defs["Ragged"].body if isinstance(x, ast.FunctionDef)}

    def offs(w, t):
        it = w.it
        r = make(w, P, "Ragged", arr["data"], arr["lengths"])
        e0 = len(it.events)
        index(w, r, const(0))
        ws = writes(it, e0)
        se = it.freeze(w.call(r, "_get_starts_ends")) if "_get_starts_ends" in names else None
        if se is not None and se not in it.hooks.alloc and "cumsum" in fmt(se) and arr["lengths"] in leaves(se):
            w.req(se.op == "call" and any(is_const(x) and cval(x) == 0 for x in leaves(se)), "first", "the first sequence does not start at row 0")
            return
        first = [a for a, how, i, v, ev in ws if v is not None and is_const(v) and cval(v) == 0 and i is const(0)]
        w.req(len(first) >= 1, "first", "the first sequence does not start at row 0")
        a = first[0] if first else None
        nm, args, kw = it.hooks.alloc.get(a, ("", [None], {}))
        F = Forms(it)
        n = args[0] if args else None
        n1 = [mk("bin", "Add", mk("attr", arr["lengths"], "size"), const(1)), mk("bin", "Add", mk("sub", mk("attr", arr["lengths"], "shape"), const(0)), const(1)),
              mk("bin", "Add", mk("call", "len", (arr["lengths"],), ()), const(1))]
        w.req(n is not None and any(F.equal(n, x) for x in n1), "size", f"there are {show(n) if n is not None else 'no'} starts and ends instead of one more than sequences")
        sums = [x for x in it.hooks.sums if x[1] is not None]
        w.req(any(src is arr["lengths"] and isinstance(out, Term) and out.op == "sub" and out.args[0] is a and out.args[1] is mk("slice", const(1), NONE, NONE) for src, out in sums)
              or any(src is arr["lengths"] for src, out in it.hooks.sums) and any(x is a and i is mk("slice", const(1), NONE, NONE) for x, how, i, v, ev in ws),
              "running sum", f"the starts and ends after the first are not the running sum of the lengths but {[show(o) for s_, o in sums]}")
    R.scenario("ragged", MOD, "Ragged.__getitem__", "starts and ends", offs, TypeHooks)

    # --------------------------------------------------------------- pairs
    def pairs(w, t):
        one, two, i = distinct("arr:one"), distinct("arr:two"), distinct("i")
        p = make(w, P, "Pairs", one, two)
        r = index(w, p, i)
        w.req(w.it.freeze(w.get(r, "one")) is mk("sub", one, i), "one", f"one is {show(w.get(r, 'one'))}")
        w.req(w.it.freeze(w.get(r, "two")) is mk("sub", two, i), "two", f"two is {show(w.get(r, 'two'))}")
        a, b = L(*map(const, "abc")), L(*map(const, "xyz"))
        p = make(w, P, "Pairs", a, b)
        w.req(w.call(p, "__len__") is const(3), "len", "the length is not the number of pairs")
        r = index(w, p, mk("slice", const(1), NONE, NONE))
        w.req([cval(x) for x in w.seq(w.get(r, "one"))] == ["b", "c"] and [cval(x) for x in w.seq(w.get(r, "two"))] == ["y", "z"], "slice", "a slice selects other elements on the two sides")
    R.scenario("pairs", MOD, "Pairs.__getitem__", "both sides", pairs, TypeHooks, clean=lambda c: True)

    # ---------------------------------------------------------- argskwargs
    def ak(w, t):
        it = w.it
        a, b, c, d = (distinct(f"v{i}") for i in range(4))
        x = make(w, P, "ArgsKwargs", args=it.mktuple([a, b]), kwargs=D(k=c, a=d))
        ls = lambda n: w.seq(it.call(Builtin("list"), [w.call(x, n)], [], w.node))
        keys, vals, items = ls("keys"), ls("values"), [w.seq(p) for p in ls("items")]
        w.req([cval(k) for k in keys] == [0, 1, "k", "a"], "keys", f"the keys are {[show(k) for k in keys]}")
        w.req([it.freeze(v) for v in vals] == [a, b, c, d], "values", f"the values are {[show(k) for k in vals]}")
        w.req(len(items) == 4 and [i[0] for i in items] == keys and [it.freeze(i[1]) for i in items] == [a, b, c, d], "items", "the items are not the keys with their values")
        cls = it.from_res(P.resolve(MOD, "ArgsKwargs"), P.modules[MOD], "ArgsKwargs")
        y = _unwrap(it.call(it.getattr(cls, "from_items", w.node), [L(*[it.mktuple(i) for i in items])], [], w.node))
        w.req([it.freeze(v) for v in w.seq(w.get(y, "args"))] == [a, b], "args back", f"from_items gives the args {show(w.get(y, 'args'))}")
        kw = w.mapping(w.get(y, "kwargs")) or {}
        w.req({k: it.freeze(v) for k, v in kw.items()} == {"k": c, "a": d}, "kwargs back", f"from_items gives the kwargs {list(kw)}")
        # order, not value, of the integers
        z = _unwrap(it.call(it.getattr(cls, "from_items", w.node), [L(*[it.mktuple(i) for i in ([const("k"), c], [const(1), a], [const(0), b])])], [], w.node))
        w.req([it.freeze(v) for v in w.seq(w.get(z, "args"))] == [a, b], "order", "from_items sorts the arguments by their keys")
    R.scenario("argskwargs", MOD, "ArgsKwargs.from_items", "round trip", ak, TypeHooks, clean=lambda c: True)

    # ---------------------------------------------------------------- sized
    def sized(w, t):
        it = w.it
        a, b = distinct("v0"), distinct("v1")
        fn = distinct("schedfn:get_items")

        class H(TypeHooks):
            pass
        n = [0]

        def call(it_, f, args, kw, e):
            if f is fn:
                n[0] += 1
                return _unwrap(it_.call(Builtin("iter"), [L(a, b)], [], e))
            return type(it.hooks).call(it.hooks, it_, f, args, kw, e)
        it.hooks.call = call
        g = make(w, P, "SizedGenerator", fn, const(2))
        for k in (1, 2):
            got = [it.freeze(x) for x in w.seq(it.call(Builtin("list"), [g], [], w.node))]
            w.req(got == [a, b], f"iteration {k}", f"iteration {k} gives {[show(x) for x in got]}")
            w.req(n[0] == k, f"calls {k}", f"after {k} iterations the generator function was called {n[0]} times")
        w.req(w.call(g, "__len__") is const(2), "len", "the length is not the one given")
    R.scenario("sized", MOD, "SizedGenerator", "iteration", sized, TypeHooks, clean=lambda c: True)


def same_shape(it, s, data):
    s = it.freeze(s)
    return "shape" in fmt(s) and data in leaves(s) and isinstance(s, Term) and s.op in ("bin", "tuple", "attr")


def is_empty(it, d, c):
    """The decision that nothing was selected."""
    f = fmt(c)
    if isinstance(c, Term) and c.op == "cmp" and c.args[0] == "==" and any(is_const(x) and cval(x) == 0 for x in c.args[1:]):
        return d
    return not d and not (isinstance(c, Term) and c.op == "cmp")


def rule_validators(P, ck):
    ck.rule("validator", "Each array type accepts exactly the arrays with the number of dimensions and the kind of its name.", 10)
    ck.rule("validate", "An array is refused exactly if its number of dimensions or its dtype is not the expected one, and returned as it is otherwise.", 6)
    R = Rules(P, ck)
    m = P.modules[MOD]
    import re
    n = 0
    for name, d in m.defs.items():
        if not isinstance(d, ast.ClassDef):
            continue
        g = re.fullmatch(r"_?(Array|Floats|Ints)(\dd)?", name)
        if not g or not any(isinstance(x, ast.FunctionDef) and x.name == "__get_validators__" for x in d.body):
            continue
        n += 1
        want_nd = int(g.group(2)[0]) if g.group(2) else None
        want_dt = {"Floats": "f", "Ints": "i"}.get(g.group(1))

        def body(w, t, name=name, want_nd=want_nd, want_dt=want_dt):
            it = w.it
            cls = it.from_res(P.resolve(MOD, name), m, name)
            seen = []
            h = it.hooks
            old = type(h).call

            def call(it_, f, args, kw, e):
                if isinstance(f, Func) and getattr(f.node, "name", "") == "validate_array":
                    b = dict(zip(("obj", "ndim", "dtype"), args)) | dict(kw)
                    seen.append(b)
                    return args[0]
                return old(h, it_, f, args, kw, e)
            h.call = call
            vs = w.seq(it.call(Builtin("list"), [it.call(it.getattr(cls, "__get_validators__", w.node), [], [], w.node)], [], w.node))
            v = distinct("arr:value")
            x = v
            for f in vs:
                x = it.freeze(it.call(f, [x], [], w.node))
            w.req(x is v, f"{name} value", f"validating {name} gives {show(x)}")
            nd = {cval(b["ndim"]) for b in seen if b.get("ndim") is not None and is_const(b["ndim"])} - {None}
            dt = {cval(b["dtype"]) for b in seen if b.get("dtype") is not None and is_const(b["dtype"])} - {None}
            w.req(nd == ({want_nd} if want_nd else set()), f"{name} ndim", f"{name} accepts arrays with {sorted(nd) or 'any number of'} dimensions")
            w.req(dt == ({want_dt} if want_dt else set()), f"{name} dtype", f"{name} accepts arrays of kind {sorted(dt) or 'any'}")
        R.scenario("validator", MOD, name, "validators", body, TypeHooks, clean=lambda c: True)
    if n < 10:
        raise Incomplete(f"only {n} array types with validators")

    FLOAT, INT = ["float32"], ["int32", "int64", "uint32", "uint64"]

    def val(nd, dt):
        def body(w, t):
            it = w.it
            a = distinct("arr:value")
            dtype = distinct("dtype")
            h = it.hooks
            old = type(h).getattr

            def ga(it_, b, n_, e):
                if b is a and n_ == "dtype":
                    return t.dt
                if b is a and n_ == "ndim":
                    return t.nd
                return old(h, it_, b, n_, e)
            h.getattr = ga
            f = it.from_res(P.resolve(MOD, "validate_array"), m, "validate_array")
            for have_nd in (1, 2, 3, 4):
                for have in FLOAT + INT + ["float64", "bool", "int8"]:
                    t.nd, t.dt = const(have_nd), const(have)
                    ok = (nd is None or nd == have_nd) and (dt is None or have in (FLOAT if dt == "f" else INT))
                    res = []
                    ex = R.raises(w, lambda: res.append(it.freeze(it.call(f, [a], [("ndim", const(nd)), ("dtype", const(dt))], w.node))))
                    w.req((ex is None) == ok, f"expects {nd} {dt}: {have_nd} {have}", f"an array with {have_nd} dimensions of {have} is {'refused' if ok else 'accepted'} where {nd} dimensions of {dt} are expected")
                    if ok and ex is None:
                        w.req(res[0] is a, f"expects {nd} {dt}: same", "the validated array is another one")
        return body
    for nd in (None, 2):
        for dt in (None, "f", "i"):
            R.scenario("validate", MOD, "validate_array", f"ndim {nd} dtype {dt}", val(nd, dt), TypeHooks)

    def noarr(w, t):
        it = w.it
        f = it.from_res(P.resolve(MOD, "validate_array"), m, "validate_array")
        w.req(R.raises(w, lambda: it.call(f, [L(const(1))], [], w.node), ["TypeError"]) is not None, "list", "a list is accepted as an array")
    R.scenario("validate", MOD, "validate_array", "not an array", noarr, TypeHooks)
