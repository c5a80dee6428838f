"""Rules on what the optimizers compute over several updates, decided cell by cell."""
from fractions import Fraction

import numpy as np

from .cellval import A, fun
from .cellarr import Arr
from .cellint import CtxMgr
from .cellscen import Node, arr, compare, run
from .nnscen import Net, clone, contract, dcells, like
from .rules_nn import lin, same

OPT = "thinc/optimizers.py"
F = Fraction
DEF = dict(lr=F(1, 1000), b1=F(9, 10), b2=F(999, 1000), eps=F(1, 10 ** 8), L2=F(0), clip=F(1), wd=True, avg=True, radam=False)
KW = dict(b1="beta1", b2="beta2", eps="eps", L2="L2", clip="grad_clip", wd="L2_is_weight_decay", avg="use_averages", radam="use_radam")


def at(v, t):
    """Value of a setting at a step: constants, or lists that keep their last value."""
    return v[min(t, len(v) - 1)] if isinstance(v, list) else v


def sqrt(x):
    return fun("sqrt", x)


class Ref:
    """The documented updates of one parameter."""

    def __init__(self, s, w):
        self.s, self.w, self.t = s, w.copy(), 0
        self.m = each(w, lambda x: F(0))
        self.v = each(w, lambda x: F(0))
        self.ema = each(w, lambda x: F(0))

    def update(self, g, step, scale=F(1), inside=None):
        s = {k: at(v, step) for k, v in self.s.items()}
        w = self.w
        self.t += 1
        t = self.t
        if s["L2"] and not s["wd"]:
            g = g + s["L2"] * w
        if s["clip"]:
            n = F(0)
            for x in g.ravel():
                n = n + x * x
            n = sqrt(n)
            if n >= s["clip"]:
                g = each(g, lambda x: x * s["clip"] / n)
        lr = s["lr"] * scale
        b1, b2 = s["b1"], s["b2"]
        if s["radam"] or b1 > 0 and b2 > 0:
            self.m = each2(self.m, g, lambda m, x: b1 * m + (1 - b1) * x)
            self.v = each2(self.v, g, lambda v, x: b2 * v + (1 - b2) * x * x)
        if s["radam"]:
            top = 2 / (1 - b2) - 1
            n = top - 2 * t * b2 ** t / (1 - b2 ** t)
            if n >= 5:
                size = sqrt((1 - b2 ** t) * (n - 4) / (top - 4) * (n - 2) / n * top / (top - 2)) / (1 - b1 ** t)
                d = each2(self.m, self.v, lambda m, v: size * m / (sqrt(v) + s["eps"]))
            else:
                d = each(self.m, lambda m: m / (1 - b1 ** t))
        elif b1 > 0 and b2 > 0:
            fix = sqrt(1 - b2 ** t) / (1 - b1 ** t)
            d = each2(self.m, self.v, lambda m, v: fix * m / (sqrt(v) + s["eps"]))
        else:
            d = g
        w = each2(w, d, lambda x, y: x - lr * y)
        if s["L2"] and s["wd"]:
            w = each(w, lambda x: x - lr * s["L2"] * x)
        decay = min(F(1 + t, 10 + t), F(9999, 10000))
        self.ema = each2(self.ema, w, lambda e, x: e - (1 - decay) * (e - x))
        self.w = w


def each(a, f):
    return arr(a.shape, lambda *i: f(a[i]))


def each2(a, b, f):
    return arr(a.shape, lambda *i: f(a[i], b[i]))


def build(e, maker, s):
    """The optimizer with these settings."""
    given = dict(s)
    lr = given.pop("lr", None)
    kw = {KW[k]: v for k, v in given.items()}
    if maker in ("Adam", "RAdam"):
        return e.run(e.get(OPT, maker), *([lr] if lr is not None else []), **kw)
    return e.run(e.get(OPT, maker), DEF["lr"] if lr is None else lr, **kw)


def settings(maker, s):
    r = dict(DEF)
    if maker == "SGD":
        r.update(b1=F(0), b2=F(0), L2=F(0))
    if maker == "RAdam":
        r["radam"] = True
    r.update(s)
    return r


# key -> shape; (key, lr_scale) per update, None: a step
K1, K2 = (1, "W"), (2, "b")
SHAPES = {K1: (2, 2), K2: (2,)}
ONE = [K1, None, K1]
TWO = [K1, K2, None, K1, None, None, K2, K2, K1]
MANY = [K2, None] * 8

PLANS = []


def plans():
    out = []
    for m in ("Adam", "SGD", "RAdam", "Optimizer"):
        out.append((m, {}, ONE, {}))
        out.append((m, dict(lr=F(1, 5), clip=F(0)), TWO, {}))
        out.append((m, dict(lr=F(1, 5), clip=F(1, 2)), ONE, dict(lr_scale=F(1, 2))))
        out.append((m, dict(clip=F(1000), avg=False), ONE, {}))
        out.append((m, dict(clip=F(0)), ONE, dict(zero=2)))
        if m != "RAdam":
            out.append((m, dict(L2=F(1, 10), clip=F(0), wd=True), ONE, dict(zero=2)))
            out.append((m, dict(L2=F(1, 10), clip=F(0), wd=True), TWO, dict(lr_scale=F(3))))
            out.append((m, dict(L2=F(1, 10), clip=F(0), wd=False), ONE, dict(lr_scale=F(3))))
            out.append((m, dict(L2=F(1, 10), clip=F(1, 3), wd=False), ONE, {}))
            out.append((m, dict(L2=[F(1, 10), F(1, 7), F(1, 5)], clip=F(0)), TWO, {}))
        out.append((m, dict(lr=[F(1, 5), F(1, 7), F(1, 11)], clip=F(0)), TWO, {}))
        out.append((m, dict(clip=[F(1, 5), F(1000), F(1, 7)]), TWO, {}))
        if m != "SGD":
            out.append((m, dict(b1=F(1, 2), b2=F(3, 4), eps=F(1, 100), clip=F(0)), ONE, {}))
            out.append((m, dict(b1=[F(1, 2), F(3, 5)], b2=[F(3, 4), F(2, 3)], eps=[F(1, 100), F(1, 50)], clip=F(0)), TWO, {}))
    out.append(("RAdam", dict(b1=F(4, 5), b2=F(9, 10), clip=F(0)), MANY, {}))
    out.append(("RAdam", dict(b1=F(7, 10), b2=F(9, 10), eps=F(1, 10), clip=F(0)), MANY, dict(lr_scale=F(2))))
    out.append(("Optimizer", dict(radam=True, L2=F(1, 10), wd=False, clip=F(0)), ONE, {}))
    out.append(("Optimizer", dict(radam=True, L2=F(1, 10), wd=True, clip=F(0)), ONE, {}))
    out.append(("Adam", dict(clip=F(0)), MANY, {}))
    return out


def history(e, m, s, hist, kw, wrong=False):
    o = build(e, m, s)
    full = settings(m, s)
    W = {k: e.X(f"w{k[0]}q", *SHAPES[k]) for k in SHAPES if k in hist}
    ref = {k: Ref(full, w.d) for k, w in W.items()}
    step = 0
    kw = dict(kw)
    zero = kw.pop("zero", None)
    for n, k in enumerate(hist):
        if k is None:
            e.do(o, "step_schedules")
            step += 1
            continue
        G = e.X(f"g{n}q", *SHAPES[k])
        if n == zero:
            G.d[...] = F(0)
        ref[k].update(G.d.copy(), step + wrong, kw.get("lr_scale", F(1)))
        w, g = e.run(o, k, W[k], G, **kw)
        name = f"the weights of update {ref[k].t} of {k[1]}"
        for what, got, want in ((name, W[k], ref[k].w), (name + ", as returned,", w, ref[k].w), ("the gradient array after the update", G, each(G.d, lambda x: F(0)))):
            if what != name and hist is MANY:
                continue
            if hist is not MANY or n == len(hist) - 2 or n == 8 or what is not name:
                r = compare(got, want, "float32", what)
                if r:
                    return r
        av = e.attr(o, "averages")
        if full["avg"] is True:
            if hist is not MANY:
                r = compare(e.w.ev.item(av, k) if hasattr(e.w.ev, "item") else av[k], ref[k].ema, "float32", f"the average of {k[1]} after {ref[k].t} updates")
                if r:
                    return r
        elif av is not None:
            return "averages are kept without being asked for"


def rule_updates(p, ck):
    ck.rule("updates", "Adam, SGD, RAdam and Optimizer with their defaults and with every setting, constant and scheduled, clipping active and not, L2 as penalty and as weight decay, scaled learning rates, for histories of up to eight updates of one and of two interleaved "
            "parameters with steps in between, with the operations of both backends: after each update the cells of the weights (in place and as returned) and of the average are those of the documented algorithm, and the gradient is zero.", minimum=30)
    r = run(Net(), lambda e: history(e, "SGD", dict(lr=[F(1, 5), F(1, 7), F(1, 9)], clip=F(0)), ONE, {}, wrong=True))
    if r[0] != "ok" or not r[1]:
        raise RuntimeError(f"the control is not reported: {r}")
    for kind in ("numpy", "cupy"):
        for m, s, hist, kw in plans():
            tag = f"{kind} {m}(" + ", ".join(f"{k}={[float(x) for x in v] if isinstance(v, list) else v if isinstance(v, bool) else float(v)}" for k, v in s.items()) + f") {len([h for h in hist if h])} updates" + "".join(f", {k}={v}" for k, v in kw.items())
            report(ck, "updates", tag, m, run(Net(kind), lambda e: history(e, m, s, hist, kw)))


def report(ck, rule, tag, construct, r, file=OPT):
    A.dmemo.clear()
    A.points.clear()
    if r[0] == "unsup":
        ck.unit("scenarios not read")
        ck.units.setdefault("not read", {}).setdefault(f"{tag}: {r[1]}"[:140], 0)
        return
    ck.instance(rule, tag)
    text = f"raises {r[1]}: {r[2]}" if r[0] == "raise" else r[1]
    if text:
        ck.anchor = f"{file}:{construct}"
        ck.finding(rule, Node(file, 1), f"{tag}: {text}", construct=construct, key=text.split(" is ")[0].split("[")[0])
        ck.anchor = None


# ---- whole training steps ---------------------------------------------------

def models():
    """Models in which parameters are reached in different ways: nested, shared, once and several times."""
    def twice(e):
        a = lin(e)
        return e.L("chain", a, e.L("Relu", 2, 2), a)

    def shared_deep(e):
        a = lin(e)
        return e.L("concatenate", e.L("chain", a, lin(e, 1)), a)
    x = lambda e: e.X("x", 2, 2)
    return [
        ("Linear", lambda e: lin(e), x),
        ("chain with a layer used twice", twice, x),
        ("concatenate with a shared layer at another depth", shared_deep, x),
        ("residual of Maxout", lambda e: e.L("residual", e.L("Maxout", 2, 2, nP=2)), x),
        ("LayerNorm and Softmax", lambda e: e.L("chain", e.L("LayerNorm", 2), e.L("Softmax", 2, 2)), x),
        ("with_array of Linear on lists", lambda e: e.L("with_array", lin(e)), lambda e: e.lists("x", [2, 0, 1], 2)),
        ("Embed", lambda e: e.L("Embed", 2, 3), lambda e: e.N([2, 0, 2])),
        ("no parameters", lambda e: e.L("noop"), x),
    ]


def steps(e, build_model, X, s, wrong=False):
    o = build(e, "Optimizer", s)
    full = settings("Optimizer", s)
    m = build_model(e)
    e.do(m, "initialize", X=X(e))
    refs = {}
    for rnd in range(2):
        e.symbols(m)
        ps = []
        for nd, p, v in e.params(m):
            k = (e.attr(nd, "id"), p)
            refs.setdefault(k, Ref(full, v.d))
            refs[k].w = v.d.copy()
            ps.append((k, nd, p, v))
        if rnd:
            e.do(o, "step_schedules")
        for again in range(1 + rnd):            # the second round accumulates two batches
            x = X(e)
            Y, bp = e.do(m, "begin_update", x)
            dY = like(e, Y, f"g{rnd}{again}")
            logits = contract(Y, dY)
            e.run(bp, dY)
        grads = {}
        for k, nd, p, v in ps:
            g = e.pgrad(nd, p)
            grads[k] = None if g is None else g.d.copy()
        if rnd == 0 and not any(nd.at["name"] == "softmax" for _, nd, _, _ in ps):
            for k, nd, p, v in ps:
                want = dcells(logits, v)
                r = compare(Arr(grads[k], "float32", e.dev), want, path=f"the gradient of {p}") if grads[k] is not None else None
                if r:
                    return r
        e.do(m, "finish_update", o)
        for k, nd, p, v in ps:
            if grads[k] is None:
                continue
            refs[k].update(grads[k], rnd + wrong)
            r = compare(e.do(nd, "get_param", p), refs[k].w, "float32", f"parameter {p} of {nd.at['name']} after finish_update")
            if r:
                return r
            g = e.pgrad(nd, p)
            r = None if g is None else compare(g, each(grads[k], lambda x: F(0)), "float32", f"the gradient of {p} of {nd.at['name']} after finish_update")
            if r:
                return r
        if full["avg"] is True:
            av = e.attr(o, "averages")
            held = [(nd, p, clone(e.do(nd, "get_param", p))) for _, nd, p, _ in ps]
            cm = e.do(m, "use_params", av)
            enter, leave = (cm.enter, lambda: cm.leave(None)) if isinstance(cm, CtxMgr) else (lambda: e.do(cm, "__enter__"), lambda: e.do(cm, "__exit__", None, None, None))
            enter()
            for k, nd, p, v in ps:
                if grads[k] is not None:
                    r = compare(e.do(nd, "get_param", p), refs[k].ema, "float32", f"parameter {p} of {nd.at['name']} within use_params(averages)")
                    if r:
                        return r
            leave()
            for nd, p, v in held:
                r = same(e.do(nd, "get_param", p), v, f"parameter {p} of {nd.at['name']} after use_params(averages)")
                if r:
                    return r


def rule_steps(p, ck):
    ck.rule("training steps", "Models in which a parameter is reached once, several times, at different depths, for part of its rows or not at all are run forward and backward (the second round with two batches before the update), and updated by finish_update: every parameter is moved once, "
            "by the algorithm of the optimizer applied to the sum of its gradients; its gradient is zero afterwards; within use_params(averages) every parameter is the running average of its own history, and afterwards what it was.", minimum=8)
    plans = [dict(lr=F(1, 3), b1=F(0), b2=F(0), clip=F(0)), dict(lr=[F(1, 3), F(1, 4)], b1=F(0), b2=F(0), clip=F(0), L2=F(1, 10)), dict(lr=F(1, 3), b1=F(1, 2), b2=F(3, 4), eps=F(1, 10), clip=F(0), avg=False)]
    r = run(Net(), lambda e: steps(e, models()[0][1], models()[0][2], plans[1], wrong=True))
    if r[0] != "ok" or not r[1]:
        raise RuntimeError(f"the control is not reported: {r}")
    for kind in ("numpy", "cupy"):
        for name, b, X in models():
            for s in plans:
                tag = f"{kind} {name}, " + ", ".join(f"{k}={v}" for k, v in s.items())
                report(ck, "training steps", tag, name, run(Net(kind), lambda e: steps(e, b, X, s)), "thinc/model.py")
