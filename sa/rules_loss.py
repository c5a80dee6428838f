"""Rules about the losses and the construction of their targets."""
import ast

from .scen import *
from .interp import _unwrap
from .ratform import Forms, decided
from .rules_model import Calls
from .rules_state import leaves
from .rules_optim import root, canon

MOD = "thinc.loss"
ALLOC = {"ones", "zeros", "empty", "full", "ones_like", "zeros_like", "empty_like", "full_like"}


class LossHooks(Calls):
    """Arrays: allocations are distinct; the rank of the inputs is given."""
    ndim = {}

    def __init__(self):
        super().__init__()
        self.n = 0
        self.alloc = {}

    def getattr(self, it, base, name, e):
        if name == "ndim" and isinstance(base, Term):
            for x in [base]:
                s = fmt(x)
                if s in self.ndim:
                    return const(self.ndim[s])
                if x.op == "call" and short(x.args[0]) in ("asarray", "array") and x.args[1] and isinstance(x.args[1][0], Term) and x.args[1][0].op in ("list", "tuple") \
                        and all(is_const(i) for i in x.args[1][0].args):
                    return const(1)
        return super().getattr(it, base, name, e)

    def call(self, it, f, args, kw, e):
        if isinstance(f, Term) and f.op == "ext" and f.args[0].startswith("numpy.") and f.args[0].count(".") == 1 and short(f.args[0]) in ALLOC:
            self.n += 1
            t = distinct(f"arr:alloc{self.n}")
            self.alloc[t] = (short(f.args[0]), [it.freeze(a) for a in args], {k: it.freeze(v) for k, v in kw})
            return t
        if isinstance(f, Term) and f.op == "ext" and f.args[0].startswith("numpy.") and short(f.args[0]) == "fill_diagonal":
            it.event("mutate", e, target=_unwrap(args[0]), how="fill_diagonal", value=it.freeze(args[1]))
            return NONE
        return super().call(it, f, args, kw, e)


def new(w, P, n, *a, **k):
    return _unwrap(w.it.call(w.it.from_res(P.resolve(MOD, n), P.modules[MOD], n), list(a), list(k.items()), w.node))


def losses(P):
    """The concrete loss classes."""
    out = []
    for n, d in P.modules[MOD].defs.items():
        if isinstance(d, ast.ClassDef) and any(ast.unparse(b) == "Loss" for b in d.bases):
            out.append(n)
    return out


def data(cls, kind):
    """Guesses and truths of one kind."""
    one = {"floats": lambda i: distinct(f"arr:truths{i}"), "ints": lambda i: distinct(f"arr:labels{i}"),
           "strs": lambda i: L(const("a"), const("M"), const("!b"), const("b")),
           "intlist": lambda i: L(const(0), const(7), const(1), const(1))}[kind]
    if cls.startswith("Sequence"):
        return L(distinct("arr:guesses0"), distinct("arr:guesses1")), L(one(0), one(1))
    return distinct("arr:guesses0"), one(0)


class NdHooks(LossHooks):
    ndim = {"arr:guesses0": 2, "arr:guesses1": 2, "arr:truths0": 2, "arr:truths1": 2, "arr:labels0": 1, "arr:labels1": 1}


def arrays_in(x):
    x = _unwrap(x)
    if isinstance(x, Obj):
        return [t for i in x.items for t in arrays_in(i)]
    return [x] if is_array(x) else []


def configs(cls):
    nm = lambda: L(const("a"), const("b"))
    if "Crossentropy" in cls:
        out = []
        for norm in (TRUE, FALSE):
            out.append(("floats", dict(normalize=norm)))
            out.append(("floats", dict(normalize=norm, names=nm())))
            out.append(("floats", dict(normalize=norm, missing_value=const(7))))
            out.append(("ints", dict(normalize=norm, missing_value=const(7))))
            out.append(("ints", dict(normalize=norm, names=nm(), label_smoothing=const(0.1))))
            out.append(("intlist", dict(normalize=norm, missing_value=const(7))))
            out.append(("strs", dict(normalize=norm, names=nm(), missing_value=const("M"), neg_prefix=const("!"))))
            out.append(("strs", dict(normalize=norm, names=nm(), missing_value=const("M"), neg_prefix=const("!"), label_smoothing=const(0.1))))
        return out
    if cls == "CosineDistance":
        return [("floats", dict(normalize=n, ignore_zeros=z)) for n in (TRUE, FALSE) for z in (TRUE, FALSE)]
    return [("floats", dict(normalize=n)) for n in (TRUE, FALSE)]


def show_cfg(kind, c):
    return f"{kind}, " + ", ".join(f"{k}={show(v)}" for k, v in c.items())


def writes(it, e0):
    """(array, how, index, value) of every write since event e0."""
    out = []
    for ev in it.events[e0:]:
        if ev.kind == "mutate":
            t = ev.data["target"]
            t = t if isinstance(t, Term) else _unwrap(t)
            if not isinstance(t, Term):
                out.append((t, ev.data["how"], ev.data.get("index"), ev.data.get("value"), ev))
                continue
            v = ev.data.get("value")
            i = ev.data.get("index")
            out.append((t, ev.data["how"], None if i is None else it.freeze(i), None if v is None else it.freeze(v), ev))
    return out


def base(t):
    """The array written to, through row and column selections."""
    while isinstance(t, Term):
        t2 = root(t)
        if isinstance(t2, Term) and t2.op == "sub":
            t2 = t2.args[0]
        if t2 is t:
            return t
        t = t2
    return t


def rule_loss(P, ck):
    ck.rule("pair", "Calling a loss gives exactly what get_grad and get_loss give.", 6)
    ck.rule("inputs", "A loss leaves the guesses and truths it is given unchanged.", 10)
    ck.rule("shapes", "No result is given for guesses and truths of different shapes (or sequences of different lengths, or values outside [0, 1]).", 8)
    ck.rule("normalize", "With normalize the gradient is divided by the number of guesses, without it is not; the loss is the sum of the squares of the gradient "
            "(cosine distance: normalized and masked the same way as the gradient).", 6)
    ck.rule("missing", "Missing values get no gradient, negated labels a target of zero and no gradient for the other classes.", 8)
    R = Rules(P, ck)
    cs = losses(P)
    if len(cs) < 4:
        raise Incomplete(f"only {len(cs)} losses found")
    for cls in cs:
        for kind, cfg in configs(cls):
            what = show_cfg(kind, cfg)

            def body(w, t, cls=cls, kind=kind, cfg=cfg):
                it = w.it
                F = Forms(it)
                obj = new(w, P, cls, **cfg)
                g, y = data(cls, kind)
                ins = arrays_in(g) + arrays_in(y)
                before = [list(x.items) if isinstance(x, Obj) else x for x in [_unwrap(y)] + [_unwrap(i) for i in (y.items if isinstance(y, Obj) else [])]]
                e0 = len(it.events)
                runs = {}
                for m in ("get_grad", "get_loss", "__call__"):
                    e1 = len(it.events)
                    r = w.it.call(obj, [g, y], [], w.node) if m == "__call__" else w.call(obj, m, g, y)
                    runs[m] = (r, writes(it, e1))
                t.full = True
                # -- inputs
                for a, how, i, v, ev in writes(it, e0):
                    if isinstance(a, Obj):
                        w.req(not (a is y or a is g or any(a is _unwrap(x) for x in (y.items if isinstance(y, Obj) else []))), "list", "the truths list is changed", ev.node, rule="inputs")
                    else:
                        w.req(not any(base(a) is x for x in ins), "array", f"{show(base(a))} is written to ({how})", ev.node, rule="inputs")
                after = [list(x.items) if isinstance(x, Obj) else x for x in [_unwrap(y)] + [_unwrap(i) for i in (y.items if isinstance(y, Obj) else [])]]
                w.req(len(before) == len(after) and all((len(p) == len(q) and all(_unwrap(a) is _unwrap(b) for a, b in zip(p, q))) if isinstance(p, list) and isinstance(q, list) else p is q for p, q in zip(before, after)),
                      "unchanged", "the truths list is changed", rule="inputs")
                # -- pair
                both = w.seq(runs["__call__"][0])
                ok = len(both) == 2
                w.req(ok, "tuple", "the call does not give a gradient and a loss", rule="pair")
                if not ok:
                    return
                grad, loss = runs["get_grad"][0], it.freeze(runs["get_loss"][0])
                gl = w.seq(grad) if isinstance(grad, Obj) else [grad]
                gl2 = w.seq(both[0]) if isinstance(both[0], Obj) else [both[0]]
                ra, rb = {}, {}
                w.req(len(gl) == len(gl2) and all(canon(it, a, ra) is canon(it, b, rb) for a, b in zip(gl, gl2)), "gradient",
                      f"the call gives the gradient {show(both[0])}, get_grad {show(grad)}", rule="pair")
                w.req(canon(it, loss, {}) is canon(it, both[1], {}) or wr_loss(it, loss, both[1]), "loss", f"the call gives the loss {show(both[1])}, get_loss {show(loss)}", rule="pair")
                # what was written on the way has to agree too
                sig = lambda ws, ren: [(how, canon(it, i, ren) if i is not None else None, canon(it, v, ren) if isinstance(v, Term) else None) for a, how, i, v, ev in ws if isinstance(a, Term)]
                gw = sig(runs["get_grad"][1], {})
                gs = arrays_in(g)
                # -- normalize, missing
                norm = cfg["normalize"] is TRUE
                for k, (a, gr) in enumerate(zip(gs, gl)):
                    if cls.startswith("Sequence"):
                        divs = divisors(gr)
                        want = [const(2)] if norm else []
                        w.req([d for d in divs] == want, f"divided {k}", f"with normalize={norm} the gradient is divided by {[show(d) for d in divs]}", rule="normalize")
                    elif "Crossentropy" in cls or cls == "L2Distance":
                        divs = divisors(gr)
                        w.req(len(divs) == int(norm) and all(is_len(d, a) for d in divs), "divided", f"with normalize={norm} the gradient is divided by {[show(d) for d in divs]}", rule="normalize")
                if cls == "CosineDistance":
                    for nm, r in (("gradient", it.freeze(grad)), ("loss", loss)):
                        top = r
                        n = sum(is_len(x.args[2], gs[0]) for x in leaves(r) if x.op in ("bin", "iop") and x.args[0] == "Div")
                        w.req(n >= 1 if norm else n == 0, f"{nm} divided", f"with normalize={norm} the {nm} is {'not ' if norm else ''}divided by the number of guesses", rule="normalize")
                    for nm, m in (("gradient", "get_grad"), ("loss", "get_loss")):
                        zs = [(base(x), i) for x, how, i, v, ev in runs[m][1] if isinstance(x, Term) and v is not None and is_const(v) and cval(v) == 0 and i is not None]
                        hit = [x for x, i in zs if arrays_in(y)[0] in leaves(i) and gs[0] not in leaves(i) and selects(i, 0)]
                        res = it.freeze(runs[m][0])
                        if cfg["ignore_zeros"] is TRUE:
                            w.req(any(x in chain(res) for x in hit), f"{nm} zeros", f"zero targets still count in the {nm} although ignore_zeros is set", rule="missing")
                        else:
                            w.req(not hit, f"{nm} no zeros", f"zero targets do not count in the {nm} although ignore_zeros is not set", rule="missing")
                else:
                    # the loss is the sum of the squares of the gradient
                    sq = squares(it, loss)
                    lg = [canon(it, x, {}) for x in gl]
                    w.req(len(sq) == len(gl) and all(canon(it, x, {}) is q for x, q in zip(sq, lg)), "squares", f"the loss {show(loss)} is not the sum of the squares of the gradient", rule="normalize")
                if "Crossentropy" in cls:
                    for k, gr in enumerate(gl):
                        masks = [root(x) for x in multipliers(gr)]
                        ws = runs["get_grad"][1]
                        # rows written with zeros in the masks (through masks multiplied into masks)
                        allm = set()
                        todo = list(masks) + list(multipliers(gr))
                        while todo:
                            x = todo.pop()
                            if x in allm:
                                continue
                            allm.add(x)
                            todo += [y_ for y_ in leaves(x) if y_ not in allm]
                        zero = [(base(x), i) for x, how, i, v, ev in ws if isinstance(x, Term) and v is not None and is_const(v) and cval(v) == 0 and base(x) in allm and i is not None]
                        if cfg.get("missing_value") is not None:
                            if kind in ("strs", "intlist"):
                                rows = {cval(j) for x, i in zero for j in ([i] if is_const(i) else i.args if isinstance(i, Term) and i.op in ("list", "tuple") else []) if is_const(j)}
                                w.req(1 in rows, f"row {k}", f"the missing value in row 1 keeps its gradient (zeroed rows: {sorted(map(str, rows))})", rule="missing")
                                w.req(not rows & {0, 3}, f"other rows {k}", f"rows without missing values lose their gradient ({sorted(map(str, rows))})", rule="missing")
                            else:
                                arr = arrays_in(y)[k]
                                w.req(any(selects(i, 7) and arr in leaves(i) for x, i in zero), f"by value {k}", "rows with the missing value keep their gradient", rule="missing")
                        elif kind in ("floats", "ints"):
                            w.req(not [1 for x, i in zero if not is_const(i)], f"none missing {k}", "rows are masked although no missing value is set", rule="missing")
                        if cfg.get("neg_prefix") is not None and kind == "strs":
                            neg = [(base(x), x, i, v) for x, how, i, v, ev in ws if isinstance(x, Term)]
                            rows = {cval(i) for x, i in zero if is_const(i)}
                            w.req(2 in rows, f"negated row {k}", "the other classes of a negated label keep their gradient", rule="missing")
                            # the negated class itself: marked, target zero, and back to one in the mask
                            mark = [(b, v) for b, x, i, v in neg if v is not None and is_const(v) and cval(v) not in (0, 1) and is_const(i) and cval(i) == 1 or
                                    v is not None and is_const(v) and isinstance(i, Term) and i.op == "tuple" and i.args == (const(2), const(1)) and cval(v) not in (0, 1)]
                            w.req(bool(mark), f"negated class {k}", "the negated class of row 2 is not told apart from the others", rule="missing")
                            for b, v in mark:
                                sel = [(base(x), v2) for b2, x, i, v2 in neg if isinstance(i, Term) and i.op == "cmp" and b in {root(z) for z in leaves(i)} and v in leaves(i)]
                                w.req(any(v2 is not None and is_const(v2) and cval(v2) == 0 and x is not b for x, v2 in sel), f"negated target {k}", "the target of a negated class is not set to zero", rule="missing")
                                w.req(any(v2 is not None and is_const(v2) and cval(v2) == 1 and x is b for x, v2 in sel), f"negated mask {k}", "the negated class is masked too", rule="missing")


            def checked(w, t, cls=cls, kind=kind, cfg=cfg, m=None):
                obj = new(w, P, cls, **cfg)
                g, y = data(cls, kind)
                w.it.call(obj, [g, y], [], w.node) if m == "__call__" else w.call(obj, m, g, y)
                # -- shapes
                gs = arrays_in(g)
                conds = [(d, c) for d, c, _ in w.it.taken]
                for k, a in enumerate(gs):
                    sh = mk("attr", a, "shape")
                    w.req(any(is_shape_eq(d, c, a) for d, c in conds), f"shape {k}", f"{m} gives a result without comparing the shape of {show(a)} with the shape of the target", rule="shapes")
                    if "Crossentropy" in cls:
                        for op, what_ in ((1, "above 1"), (0, "below 0")):
                            w.req(any(range_cond(d, c, lambda x: x is a, op) for d, c in conds), f"guesses {what_} {k}", f"{m} gives a result for guesses {what_}", rule="shapes")
                            w.req(any(range_cond(d, c, lambda x: x is not a and not (is_array(x) and x in gs), op) for d, c in conds), f"truths {what_} {k}", f"{m} gives a result for truths {what_}", rule="shapes")

            if cfg["normalize"] is TRUE and not cfg.get("label_smoothing") and not cfg.get("neg_prefix"):
                for m in ("get_grad", "get_loss", "__call__") + (("get_similarity",) if cls == "CosineDistance" else ()):
                    R.scenario("shapes", MOD, cls, f"{m}, {what}", lambda w, t, m=m: checked(w, t, m=m), NdHooks, limit=300)

            ps = R.scenario("pair", MOD, cls, what, body, NdHooks, limit=300)
            if not any(getattr(t, "full", False) for t in ps):
                raise Incomplete(f"{cls} {what}: nothing analysed")

    # sequences of different lengths
    def lens(w, t):
        obj = new(w, P, "SequenceCategoricalCrossentropy")
        for n, m in ((2, 1), (1, 2)):
            for f in ("get_grad", "get_loss", "__call__"):
                g = L(*[distinct(f"arr:guesses{i}") for i in range(n)])
                y = L(*[distinct(f"arr:truths{i}") for i in range(m)])
                call = (lambda: w.it.call(obj, [g, y], [], w.node)) if f == "__call__" else (lambda: w.call(obj, f, g, y))
                w.req(R.raises(w, call, ["ValueError"]) is not None, f"{f} {n} {m}", f"{f} accepts {n} guesses and {m} truths", rule="shapes")
    R.scenario("shapes", MOD, "SequenceCategoricalCrossentropy", "different lengths", lens, NdHooks)

    # label smoothing of one-hot truths is refused
    def smooth(w, t):
        obj = new(w, P, "CategoricalCrossentropy", label_smoothing=const(0.1))
        g, y = data("CategoricalCrossentropy", "floats")
        w.req(R.raises(w, lambda: w.call(obj, "get_grad", g, y), ["ValueError"]) is not None, "smoothing", "label smoothing is silently ignored for truths that are not labels", rule="shapes")
    R.scenario("shapes", MOD, "CategoricalCrossentropy", "label smoothing of one-hot truths", smooth, NdHooks)

    rule_factories(P, ck, R)
    rule_onehot(P, ck, R)


def rule_factories(P, ck, R):
    ck.rule("factory", "Every registered loss gets the settings it was configured with.", 8)
    m = P.modules[MOD]
    n = 0
    for name, d in m.defs.items():
        if not (isinstance(d, ast.FunctionDef) and any("registry.losses" in ast.unparse(x) for x in d.decorator_list)):
            continue
        n += 1
        params = [a.arg for a in d.args.args + d.args.kwonlyargs]
        cls = next((c for c in losses(P) if c.lower() in name.lower() and (c.startswith("Sequence") == ("Sequence" in name))), None)
        if cls is None:
            raise Incomplete(f"no class for {name}")

        def body(w, t):
            it = w.it
            vals = {"normalize": FALSE, "ignore_zeros": TRUE, "names": L(const("x"), const("y")), "missing_value": const("M"), "neg_prefix": const("#"), "label_smoothing": const(0.25)}
            for p in params:
                a = new(w, P, name, **{p: vals[p]})
                b = new(w, P, cls, **{p: vals[p]})
                c = new(w, P, cls)
                w.req(attrs(w, a) == attrs(w, b), p, f"{name}({p}=...) gives another loss than {cls}({p}=...)", rule="factory")
                w.req(attrs(w, b) != attrs(w, c), f"{p} used", f"{cls}({p}=...) is the same as {cls}()", rule="factory")
            a, c = new(w, P, name), new(w, P, cls)
            w.req(attrs(w, a) == attrs(w, c), "defaults", f"{name}() gives another loss than {cls}()", rule="factory")
        R.scenario("factory", MOD, name, "settings", body, NdHooks, clean=lambda c: True)


def attrs(w, o, depth=0):
    """The attributes of an object, by value."""
    o = _unwrap(o)
    if isinstance(o, Obj):
        if o.kind == "inst":
            return tuple(sorted((k, attrs(w, v, depth + 1)) for k, v in o.fields.items())) if depth < 4 else "..."
        return (o.kind,) + tuple((fmt(i[0]), attrs(w, i[1], depth + 1)) if isinstance(i, tuple) else attrs(w, i, depth + 1) for i in o.items)
    return fmt(o) if isinstance(o, Term) else repr(o)


def rule_onehot(P, ck, R):
    ck.rule("onehot", "The targets of labels sum to one and give the true class one minus the smoothing; smoothing that would make another class as likely is refused.", 4)

    def body(smoothing):
        def b(w, t):
            it = w.it
            F = Forms(it)
            y, n, s = distinct("arr:labels0"), distinct("n_classes"), (const(0.0) if smoothing is None else distinct("smoothing"))
            f = it.from_res(P.resolve("thinc.util", "to_categorical"), P.modules["thinc.util"], "to_categorical")
            e0 = len(it.events)
            kw = [("n_classes", n)] + ([("label_smoothing", s)] if smoothing else [])
            r = it.freeze(it.call(f, [y], kw, w.node))
            t.full = True
            tab = [x for x in leaves(r) if x in it.hooks.alloc]
            ok = w.req(len(tab) == 1 and r.op == "sub" and r.args[1] is y, "table", f"the targets are {show(r)}, not rows of one table chosen by the labels")
            if not ok:
                return
            nm, args, kws = it.hooks.alloc[tab[0]]
            fill = args[1] if len(args) > 1 else kws.get("fill_value", const(0.0 if nm != "ones" else 1.0))
            dg = [v for x, how, i, v, ev in writes(it, e0) if base(x) is tab[0] and how == "fill_diagonal"]
            if not w.req(len(dg) == 1, "diagonal", "the true class has no value of its own"):
                return
            zero = F.equal(s, const(0.0)) or any(d and c.op == "cmp" and c.args[0] == "==" and s in c.args[1:] for d, c, _ in it.taken if isinstance(c, Term))
            gold = dg[0]
            one = mk("bin", "Sub", const(1), s)
            w.req(F.equal(gold, one), "gold", f"the true class gets {show(gold)} instead of 1 - smoothing")
            if zero:
                w.req(is_const(fill) and cval(fill) == 0, "rest", f"the other classes get {show(fill)} without smoothing")
            else:
                tot = mk("bin", "Add", gold, mk("bin", "Mult", fill, mk("bin", "Sub", n, const(1))))
                w.req(F.equal(tot, const(1)), "sum", f"a row sums to {show(tot)} instead of 1")
                lim = mk("bin", "Div", mk("bin", "Sub", n, const(1)), n)
                w.req(decided(it, F, s, lim) is True or decided(it, F, const(1), n) is False, "limit", "smoothing at or above (n - 1) / n is accepted")
                w.req(decided(it, F, s, const(0)) is False, "negative", "negative smoothing is accepted")
        return b
    for s in (None, 1):
        ps = R.scenario("onehot", "thinc.util", "to_categorical", "with smoothing" if s else "without smoothing", body(s), NdHooks, limit=100)
        if not any(getattr(t, "full", False) for t in ps):
            raise Incomplete("to_categorical: nothing analysed")


# ------------------------------------------------------------------ helpers
def wr_loss(it, a, b):
    return False


def selects(i, v):
    """The index picks the elements equal to a value, not the others."""
    cs = [x for x in leaves(i) if x.op == "cmp" and x.args[0] in ("==", "!=") and any(is_const(a) and cval(a) == v for a in x.args[1:])]
    flip = any(x.op == "un" and x.args[0] in ("Invert", "Not") or x.op == "not" or x.op == "call" and short(x.args[0]) == "logical_not" for x in leaves(i))
    return bool(cs) and all((x.args[0] == "==") != flip for x in cs)


def chain(t):
    """The arrays whose zeros stay zeros in the result."""
    out = set()
    while isinstance(t, Term):
        out |= {t, base(t)}
        if t.op == "un" and t.args[0] == "USub":
            t = t.args[1]
        elif t.op in ("bin", "iop") and t.args[0] in ("Div", "Mult"):
            if t.op == "bin" and t.args[0] == "Mult":
                out |= chain(t.args[2])
            t = t.args[1]
        elif t.op == "call" and short(t.args[0]) in ("sum", "mean") and t.args[1]:
            t = t.args[1][0]
        else:
            break
    return out


def is_shape_eq(d, c, a):
    """The decision that the shape of `a` equals another array's shape."""
    pol = True
    while isinstance(c, Term) and c.op == "not":
        c, pol = c.args[0], not pol
    if not (isinstance(c, Term) and c.op == "cmp" and c.args[0] in ("==", "!=")):
        return False
    eq = (c.args[0] == "==") == (d == pol)
    sh = lambda x: isinstance(x, Term) and x.op in ("attr", "shape") and "shape" in fmt(x)
    return eq and all(sh(x) for x in c.args[1:]) and any(a in leaves(x) for x in c.args[1:])


def range_cond(d, c, who, bound):
    """The decision that no value of an array lies beyond the bound."""
    pol = True
    while isinstance(c, Term) and c.op == "not":
        c, pol = c.args[0], not pol
    d = d == pol
    for x in leaves(c):
        if x.op == "cmp" and x.args[0] in ("<", "<="):
            lo, hi = x.args[1:]
            arr, k, side = (lo, hi, 0) if is_const(hi) else (hi, lo, 1) if is_const(lo) else (None, None, None)
            if arr is None or cval(k) != bound or not who(arr):
                continue
            outside = (side == 1) == (bound == 1)     # the comparison says "beyond the bound"
            fn = fmt(c)
            if "any" in fn and outside and not d:
                return True
            if "all" in fn and not outside and d:
                return True
    for x in leaves(c):
        if x.op == "call" and short(x.args[0]) in ("max", "min", "amax", "amin"):
            pass
    return False


def divisors(t):
    """What a value was divided by, from the outside in."""
    out = []
    while isinstance(t, Term):
        if t.op in ("bin", "iop") and t.args[0] == "Div":
            out.append(t.args[2])
            t = t.args[1]
        elif t.op in ("bin", "iop") and t.args[0] == "Mult":
            c = [x for x in t.args[1:] if isinstance(x, Term)]
            t = t.args[1]
        else:
            break
    return out


def is_len(d, a):
    return isinstance(d, Term) and (fmt(d) in (f"{fmt(a)}.shape[0]", f"len({fmt(a)})"))


def multipliers(t):
    out = []
    while isinstance(t, Term):
        if t.op in ("bin", "iop") and t.args[0] == "Mult":
            out += [t.args[2]]
            t = t.args[1]
        elif t.op in ("bin", "iop") and t.args[0] == "Div":
            t = t.args[1]
        else:
            break
    return out


def squares(it, t):
    """The arrays whose squares are summed in a loss."""
    if not isinstance(t, Term):
        return []
    if t.op in ("bin", "iop") and t.args[0] == "Add":
        return squares(it, t.args[1]) + squares(it, t.args[2])
    if t.op == "call" and short(t.args[0]) == "sum":
        x = t.args[1][0] if t.args[1] else None
        if isinstance(x, Term) and x.op == "bin" and x.args[0] == "Pow" and is_const(x.args[2]) and cval(x.args[2]) == 2:
            return [x.args[1]]
        if isinstance(x, Term) and x.op == "bin" and x.args[0] == "Mult" and x.args[1] is x.args[2]:
            return [x.args[1]]
    return []
