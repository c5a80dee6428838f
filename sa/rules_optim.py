"""Rules about the optimizer and the schedules."""
import ast
from functools import partial

from .scen import *
from .interp import _unwrap
from .rules_model import Calls, strkeys, soft
from .rules_state import leaves

VIEW = {"reshape1f", "reshape2f", "reshape3f", "reshape_f", "reshape", "reshape1i", "ravel", "view", "asarray", "asarray_f", "asarray1f", "squeeze"}


class OptHooks(Calls):
    """Array operations of the optimizer: allocations are new arrays, updates
    return the arrays they were given."""

    def __init__(self):
        super().__init__()
        self.n = 0
        self.ops = []
        self.stores = []

    def call(self, it, f, args, kw, e):
        if isinstance(f, Term) and f.op == "sym" and str(f.args[0]).startswith("schedfn:"):
            t = mk("call", f.args[0], tuple(it.freeze(a) for a in args[1:]), tuple((k, it.freeze(v)) for k, v in kw))
            self.log.append((f.args[0], args, kw, e))
            return t
        if isinstance(f, Term) and f.op == "attr" and isinstance(f.args[0], Term) and f.args[0].op == "call" and f.args[0].args[0] == "get_array_ops":
            n = f.args[1]
            b = bind_ops(it.P, n, args, kw)
            self.ops.append((n, b, e, len(it.events)))
            it.event("call", e, name="ops." + n, args=args, kw=kw, result=None)
            if n.startswith("alloc"):
                self.n += 1
                return distinct(f"arr:alloc{self.n}")
            if n == "adam":
                r = tuple(mk("upd", "adam", i, it.freeze(b.get(k, NONE)), it.serialize(b)) for i, k in enumerate(("weights", "gradient", "mom1", "mom2")))
                return it.mktuple(list(r))
            if n == "clip_gradient":
                return mk("upd", "clip", 0, it.freeze(b.get("gradient", NONE)), it.serialize(b))
            if n == "update_averages":
                return NONE
            return None
        return super().call(it, f, args, kw, e)


def bind_ops(P, name, args, kw):
    m = P.modules["thinc.backends.ops"]
    for st in m.defs["Ops"].body:
        if isinstance(st, ast.FunctionDef) and st.name == name:
            ps = [a.arg for a in st.args.args][1:]
            b = {}
            for p, a in zip(ps, args):
                b[p] = _unwrap(a)
            for k, v in kw:
                b[k] = _unwrap(v)
            return b
    return {str(i): _unwrap(a) for i, a in enumerate(args)} | {k: _unwrap(v) for k, v in kw}


def serialize(it, b):
    return tuple((k, it.freeze(v)) for k, v in sorted(b.items()))


def root(t):
    """The array a term is, seen through views and in-place updates."""
    while isinstance(t, Term):
        if t.op == "iop":
            t = t.args[1]
        elif t.op == "upd":
            t = t.args[2]
        elif t.op == "call" and short(t.args[0]) in VIEW:
            a = [x for x in t.args[1] if isinstance(x, Term) and (is_array(root_q(x)))]
            if not a:
                return t
            t = a[0]
        else:
            return t
    return t


def root_q(t):
    while isinstance(t, Term):
        if t.op == "iop":
            t = t.args[1]
        elif t.op == "upd":
            t = t.args[2]
        elif t.op == "call" and t.args[1] and short(t.args[0]) in VIEW:
            c = [x for x in t.args[1] if isinstance(x, Term)]
            hit = [x for x in c if is_array(root_q(x))]
            if not hit:
                return t
            t = hit[0]
        else:
            return t
    return t


from .world import WorldInterp as _WI
_WI.serialize = serialize


class Opt:
    NAMES = {"learn_rate": "learn_rate", "L2": "L2", "beta1": "b1", "beta2": "b2", "eps": "eps", "grad_clip": "grad_clip"}

    def __init__(self, w, P, flags=(), scheds=("learn_rate", "L2", "beta1", "beta2", "eps", "grad_clip"), ctor="Optimizer", values=()):
        self.w = w
        m = P.modules["thinc.optimizers"]
        S = w.it.from_res(P.resolve("thinc.schedules", "Schedule"), P.modules["thinc.schedules"], "Schedule")
        self.scheds = {}
        kw = []
        for n in scheds:
            s = w.it.call(S, [const(n), distinct("schedfn:" + n)], [], w.node)
            self.scheds[n] = _unwrap(s)
            kw.append((n, s))
        kw += [(k, const(v)) for k, v in values]
        kw += [(k, TRUE if v else FALSE) for k, v in flags]
        f = w.it.from_res(P.resolve("thinc.optimizers", ctor), m, ctor)
        lr = [v for k, v in kw if k == "learn_rate"]
        self.obj = _unwrap(w.it.call(f, lr, [(k, v) for k, v in kw if k != "learn_rate"], w.node))

    def key(self, i, n="W"):
        return self.w.it.mktuple([const(i), const(n)])

    def update(self, key, tag, **kw):
        """One call; returns (weights given, gradient given, weights, gradient, record)."""
        w = self.w
        h = w.it.hooks
        W, G = distinct(f"arr:w {tag}"), distinct(f"arr:g {tag}")
        n0, l0, e0 = len(h.ops), len(h.log), len(w.it.events)
        kw.setdefault("lr_scale", distinct("lr_scale"))
        r = w.it.call(self.obj, [key, W, G], list(kw.items()), w.node)
        rs = w.seq(r)
        return dict(W=W, G=G, rw=rs[0], rg=rs[1], ops=h.ops[n0:], scheds=h.log[l0:], events=w.it.events[e0:])


def sched(name, t):
    return [x for x in leaves(t) if x.op == "call" and x.args[0] == "schedfn:" + name]


def is_zeroed(it, u, G):
    """The gradient array itself is overwritten with zeros, and nothing is
    written into it afterwards."""
    zero = None
    for i, ev in enumerate(u["events"]):
        if ev.kind not in ("mutate", "call"):
            continue
        if ev.kind == "mutate":
            t = it.freeze(ev.data["target"]) if not isinstance(ev.data["target"], Term) else ev.data["target"]
            if root(t) is G:
                v = ev.data.get("value")
                how = ev.data["how"]
                z = (v is const(0) or v is const(0.0)) and ("Mult" in how or "item" in how or "[" in how or "fill" in how or "assign" in how)
                z = z or "Sub" in how and isinstance(v, Term) and root(v) is G
                z = z or "fill" in how and (v is None or v is const(0) or v is const(0.0))
                zero = z
    return bool(zero)


def show_key(k):
    return fmt(k)


MODES = {"sgd": dict(flags=(("use_radam", False),), zero=("beta1", "beta2")),
         "adam": dict(flags=(("use_radam", False),), values=(("beta1", 0.9), ("beta2", 0.999))),
         "radam": dict(flags=(("use_radam", True),)),
         "any": dict(flags=(("use_radam", False),))}


def rule_optimizer(P, ck):
    ck.rule("update", "A call of the optimizer updates the weights from the gradient and returns both; the gradient array it was given is zeroed "
            "in place (the model keeps that array), after it was last used.", 9)
    ck.rule("settings", "Every setting (learning rate, its scale, L2, betas, eps, clipping) takes effect where it says, on every branch; L2 acts "
            "either on the gradient before the update or as weight decay after it, never both.", 12)
    ck.rule("schedule-args", "Every schedule is called with the optimizer's step, the key of the parameter and the last score.", 8)
    ck.rule("averages", "When averages are kept, the average of exactly this parameter is updated once per call from the weights after the update; "
            "otherwise none are.", 4)
    R = Rules(P, ck)
    node = P.modules["thinc.optimizers"].defs["Optimizer"]

    def run(mode, decay, averages):
        m = MODES[mode]
        scheds = [n for n in Opt.NAMES if n not in m.get("zero", ()) and n not in dict(m.get("values", ()))]
        flags = tuple(m["flags"]) + (("L2_is_weight_decay", decay), ("use_averages", averages))
        values = tuple(m.get("values", ())) + tuple((z, 0.0) for z in m.get("zero", ()))

        def body(w, t):
            it = w.it
            sreq, oreq, areq = (partial(w.req, rule=r) for r in ("schedule-args", "settings", "averages"))
            o = Opt(w, P, flags, scheds, values=values)
            it.setattr(o.obj, "_step", const(7), w.node)
            score = distinct("last_score")
            it.setattr(o.obj, "_last_score", score, w.node)
            k = o.key(11)
            try:
                u = o.update(k, "1")
            except Stop as st:
                # a second moment without a first one is not supported
                if mode == "any" and "NotImplementedError" in it.exc_names(st.exc):
                    t.stopped_ok = True
                    return
                raise
            if u["rw"] is u["W"]:
                # the early return for empty gradients
                w.req(u["rg"] is u["G"] and not u["ops"], "empty", "an update that does nothing returns other arrays")
                return
            t.full = True
            W, G, rw, rg = u["W"], u["G"], u["rw"], u["rg"]
            w.req(root(rw) is W, "weights in place", f"the returned weights are not the array that was given ({show(rw)})")
            w.req(root(rg) is G, "gradient returned", f"the returned gradient is not the array that was given ({show(rg)})")
            w.req(is_zeroed(it, u, G), "zeroed", "the gradient array is not zeroed in place after the update: the next update would add it again")
            lv = leaves(rw)
            skipped = mode == "radam" and G not in lv and any(not d and neg_positive(c) for d, c, _ in it.taken)
            w.req(G in lv or skipped, "uses gradient", "the gradient has no influence on the weights")
            # schedules
            for nm, args, kw, e in u["scheds"]:
                d = dict(kw)
                stp = [a for a in args if a is const(7)] or [v for kk, v in kw if kk == "step" and v is const(7)]
                sreq(bool(stp), "step", f"the schedule of {nm[8:]} is not called with the step of the optimizer", e)
                sreq(it.freeze(d.get("key", NONE)) is k, "key", f"the schedule of {nm[8:]} does not get the key of the parameter", e)
                sreq(it.freeze(d.get("last_score", NONE)) is score, "last_score", f"the schedule of {nm[8:]} does not get the last score", e)
            true = lambda c: w.true(c)
            cond = {it.norm(c)[0]: d == it.norm(c)[1] for d, c, _ in it.taken}
            S = lambda n: mk("call", "schedfn:" + n, (const(7),), (("key", k), ("last_score", score)))
            calls = {n: b for n, b, e, _ in u["ops"]}
            order = [n for n, b, e, _ in u["ops"]]
            # learning rate and scale, on the way of the gradient into the weights
            main = strip_decay(rw, W, sched("L2", rw)) if decay else rw
            ml = leaves(main)
            oreq(skipped or any(sched("learn_rate", x) for x in [main]), "lr", "the learning rate has no influence on the update")
            oreq(skipped or distinct("lr_scale") in ml, "lr_scale", "lr_scale has no influence on the update")
            # L2
            l2on = not it.compare("Eq", S("L2"), const(0)) in cond or cond[it.norm(it.compare("Eq", S("L2"), const(0)))[0]] is False
            l2 = known_nonzero(it, S("L2"), cond)
            gpath = gradient_used(u, G)
            if l2 and decay:
                oreq(main is not rw, "decay", "L2 is set as weight decay but the weights do not decay")
                if main is not rw:
                    d = rw.args[2]
                    dl = leaves(d)
                    oreq(sched("L2", d) and sched("learn_rate", d) and distinct("lr_scale") in dl and any(root(x) is W for x in dl if isinstance(x, Term)), "decay term",
                          "the weight decay is not lr_scale * learn_rate * L2 * weights")
                oreq(not any(sched("L2", g) for g in gpath), "decay only", "L2 is set as weight decay but also added to the gradient")
            elif l2:
                oreq(any(sched("L2", g) and W in leaves(g) for g in gpath), "L2 gradient", "L2 * weights is not added to the gradient before the update")
                oreq(all(not (x.op == "iop" and x.args[0] == "Sub" and x is rw and sched("L2", x.args[2]) and G not in leaves(x.args[2])) for x in [rw]), "L2 once",
                      "L2 is added to the gradient and also decays the weights")
            elif l2 is False:
                oreq(not sched("L2", rw), "L2 off", "L2 is zero but changes the weights")
            # clipping
            clip = truthy(it, S("grad_clip"), cond)
            if clip:
                oreq(order.count("clip_gradient") == 1, "clip", f"the gradient is clipped {order.count('clip_gradient')} times")
                b = calls.get("clip_gradient", {})
                oreq(root(b.get("gradient")) is G and b.get("threshold") is S("grad_clip"), "clip args", "clip_gradient does not get the gradient and the threshold of the schedule")
                oreq(any(x.op == "upd" and x.args[0] == "clip" for g in gpath for x in leaves(g)), "clip used", "the update uses the gradient from before it was clipped")
                if l2 and not decay and b.get("gradient") is not None:
                    oreq(bool(sched("L2", b["gradient"])), "clip after L2", "the gradient is clipped before L2 is added")
            elif clip is False:
                oreq("clip_gradient" not in order, "no clip", "the gradient is clipped although clipping is off")
            # momentum
            if "adam" in calls:
                b = calls["adam"]
                beta = lambda n, v: (b.get(n) is S(n)) if n in scheds else (is_const(b.get(n)) and cval(b[n]) == v)
                oreq(root(b.get("weights")) is W and root(b.get("gradient")) is G, "adam arrays", "adam does not get the weights and the gradient")
                oreq(beta("beta1", 0.9), "beta1", f"adam gets {show(b.get('beta1'))} as beta1")
                oreq(beta("beta2", 0.999), "beta2", f"adam gets {show(b.get('beta2'))} as beta2")
                oreq(b.get("eps") is S("eps"), "eps", f"adam gets {show(b.get('eps'))} as eps")
                lr = b.get("learn_rate")
                oreq(lr is not None and sched("learn_rate", lr) and distinct("lr_scale") in leaves(lr), "adam lr", "the learning rate of adam does not combine the schedule and lr_scale")
                if mode == "any" and lr is not None:
                    oreq(sched("beta1", lr) and sched("beta2", lr), "bias correction", "the learning rate of adam is not corrected for both betas")
                for i, n in enumerate(("mom1", "mom2")):
                    st = w.mapping(w.get(o.obj, n)).get(k)
                    oreq(st is not None and root(st) is root(b.get(n)), n, f"{n} of the parameter is not what adam updates ({show(st) if st is not None else 'missing'})")
                m1, m2 = b.get("mom1"), b.get("mom2")
                oreq(root(m1) is not root(m2), "moments", "both moments are the same array")
                oreq(mode != "sgd" and mode != "radam", "adam mode", "adam is used although it was not chosen")
            elif mode == "radam":
                for n, bt in (("mom1", "beta1"), ("mom2", "beta2")):
                    st = w.mapping(w.get(o.obj, n)).get(k)
                    ups = [ev for ev in u["events"] if ev.kind == "mutate" and st is not None and root(ev.data["target"] if isinstance(ev.data["target"], Term) else it.freeze(ev.data["target"])) is root(st)]
                    vs = [it.freeze(ev.data["value"]) for ev in ups] + ([st] if st is not None else [])
                    oreq(st is not None and (len(ups) >= 2 or root(st) is not st or G in leaves(st)), n, f"{n} of the parameter is not updated")
                    oreq(any(S(bt) in leaves(v) for v in vs) and not any(S("beta2" if bt == "beta1" else "beta1") in leaves(v) for v in vs), n + " beta", f"{n} does not decay with {bt} alone")
                    oreq(any(G in leaves(v) for v in vs), n + " gradient", f"the gradient is not added to {n}")
                    m = w.mapping(w.get(o.obj, "mom2" if n == "mom1" else "mom1")).get(k)
                    oreq(m is None or st is None or root(m) is not root(st), "moments", "both moments are the same array")
                oreq(skipped or any(x.args[0] == "schedfn:beta1" for x in ml if x.op == "call") and any(x.args[0] == "schedfn:beta2" for x in leaves_of(cond, ml) if x.op == "call"), "radam betas", "the betas have no influence on the update")
                if any("sqrt" in str(x.args[0]) for x in ml if x.op == "call" and isinstance(x.args[0], (str, Term)) and root_is(x, w.mapping(w.get(o.obj, "mom2")).get(k))):
                    oreq(bool(sched("eps", main)), "radam eps", "eps has no influence where the second moment divides")
            elif mode == "sgd":
                oreq(not w.mapping(w.get(o.obj, "mom1")) and not w.mapping(w.get(o.obj, "mom2")), "sgd state", "plain gradient descent keeps moments")
            # averages
            av = [(b, i) for n, b, e, i in u["ops"] if n == "update_averages"]
            if not averages:
                areq(not av and w.get(o.obj, "averages") is NONE, "off", "averages are kept although use_averages is off")
            else:
                areq(len(av) == 1, "once", f"the average is updated {len(av)} times")
                mine = (w.mapping(w.get(o.obj, "averages")) or {})
                areq(set(mine) == {k}, "key", "the average is stored under another key")
                for b, i in av:
                    areq(b.get("ema") is mine.get(k), "array", "another array than the average of this parameter is updated")
                    areq(b.get("weights") is rw, "after", f"the average is updated from {show(b.get('weights'))}, not from the weights after the update")
                    areq(is_const(b.get("t")) and cval(b["t"]) == 1, "t", f"the average is updated with update number {show(b.get('t'))} instead of 1")
                a = mine.get(k)
                areq(a is None or root(a) is not W, "own array", "the average is the weights array itself")
                al = [b for n, b, e, _ in u["ops"] if n.startswith("alloc")]
        return body

    n = 0
    for mode in MODES:
        for decay in (True, False):
            for averages in ((True, False) if mode == "adam" else (True,)):
                ps = R.scenario("update", "thinc.optimizers", "Optimizer.__call__", f"{mode}, L2 {'as decay' if decay else 'in gradient'}, averages {'on' if averages else 'off'}",
                                run(mode, decay, averages), OptHooks, limit=400, clean=lambda c: True)
                n += sum(bool(getattr(t, "full", False)) for t in ps)
    if n < 10:
        raise Incomplete("too few complete updates analysed")


def neg_positive(c):
    """A comparison with zero: `x > 0`."""
    return isinstance(c, Term) and c.op == "cmp" and c.args[0] in ("<", "Lt") and any(is_const(x) and cval(x) == 0 for x in c.args[1:])


def leaves_of(cond, ml):
    out = set(ml)
    for c in cond:
        out |= leaves(c)
    return out


def root_is(t, st):
    return st is not None and any(x is root(st) for x in leaves(t))


def known_nonzero(it, t, cond):
    c = it.compare("NotEq", t, const(0))
    v = it.known(c)
    if v is None:
        v = it.known(t)
    return v


def truthy(it, t, cond):
    v = it.known(t)
    if v is None:
        for op in ("NotEq", "Gt"):
            v = it.known(it.compare(op, t, const(0)))
            if v is not None:
                return v
    return v


def strip_decay(rw, W, l2):
    """The weights before the decay that was applied last."""
    if isinstance(rw, Term) and rw.op == "iop" and rw.args[0] in ("Sub", "Mult") and l2 and sched("L2", rw.args[2]):
        return rw.args[1]
    return rw


def gradient_used(u, G):
    """The values of the gradient that flow into the update."""
    out = []
    for x in leaves(u["rw"]):
        if isinstance(x, Term) and x.op in ("iop", "upd", "sym") and root(x) is G:
            out.append(x)
    for n, b, e, _ in u["ops"]:
        if n == "adam" and b.get("gradient") is not None:
            out.append(b["gradient"])
    for ev in u["events"]:
        if ev.kind == "mutate" and isinstance(ev.data.get("value"), Term):
            for x in leaves(ev.data["value"]):
                if isinstance(x, Term) and x.op in ("iop", "upd") and root(x) is G:
                    out.append(x)
    return out


def canon(it, t, ren):
    """The term with the arrays allocated on the way numbered by appearance."""
    memo = {}

    def go(x):
        if not isinstance(x, Term):
            return tuple(go(i) for i in x) if isinstance(x, tuple) else x
        if id(x) in memo:
            return memo[id(x)]
        if x.op == "sym" and str(x.args[0]).startswith("arr:alloc"):
            r = ren.setdefault(x, distinct(f"new {len(ren)}"))
        else:
            r = mk(x.op, *[go(a) for a in x.args])
        memo[id(x)] = r
        return r
    return go(it.freeze(t))


def effects(it, u, ren):
    """What an update returned and wrote, with new arrays renamed."""
    out = [("weights", canon(it, u["rw"], ren)), ("gradient", canon(it, u["rg"], ren))]
    for n, b, e, _ in u["ops"]:
        if n in ("adam", "update_averages", "clip_gradient"):
            for k, v in sorted(b.items()):
                out.append((f"{k} of {n}", canon(it, v, ren)))
    for ev in u["events"]:
        if ev.kind == "mutate" and isinstance(ev.data.get("value"), Term):
            t = it.freeze(ev.data["target"])
            if is_array(root(t)) or str(root(t)).startswith("arr"):
                out.append((f"value written to {fmt(canon(it, root(t), ren))}", canon(it, ev.data["value"], ren)))
    return out


def rule_isolation(P, ck):
    ck.rule("isolation", "The update of a parameter is the same whether or not other parameters were updated before or in between: moments, averages, "
            "update counts and cached values are kept per key.", 30)
    ck.rule("step-independent", "With constant settings the update does not depend on the step of the optimizer: bias correction counts the updates of the parameter.", 8)
    R = Rules(P, ck)

    def compare(w, a, b, rule, key, text):
        it = w.it
        ra, rb = {}, {}
        x, y = effects(it, a, ra), effects(it, b, rb)
        for (n, p), (m, q) in zip(x, y):
            w.req(p is q and n == m, f"{key}: {n}", f"{text}: {n} is {show(p)} and {show(q)}", rule=rule)
            if p is not q:
                break
        w.req(len(x) == len(y), f"{key}: same writes", f"{text}: {len(x)} and {len(y)} arrays are written", rule=rule)

    def iso(mode, history):
        m = MODES.get(mode) or dict(flags=(("use_radam", True),), values=(("beta1", 0.9), ("beta2", 0.999)))
        values = dict(m.get("values", ())) | {z: 0.0 for z in m.get("zero", ())}
        # few schedules: each one doubles the paths
        scheds = [n for n in ("learn_rate", "beta1", "beta2", "eps") if n not in values]
        values |= {"L2": 0.01, "grad_clip": 1.0}
        flags = tuple(m["flags"]) + (("L2_is_weight_decay", False), ("use_averages", True))

        def body(w, t):
            o1 = Opt(w, P, flags, scheds, values=tuple(values.items()))
            o2 = Opt(w, P, flags, scheds, values=tuple(values.items()))
            ks = {"a": (11, "W"), "b": (11, "b"), "c": (12, "W")}
            n = {}
            skip = False
            step = 0
            for s in history:
                if s == "+":
                    step += 1
                    for o in (o1, o2):
                        w.call(o.obj, "step_schedules")
                    continue
                n[s] = n.get(s, 0) + 1
                try:
                    u1 = o1.update(o1.key(*ks[s]), f"{s}{n[s]}")
                    if s == history[-1]:
                        u2 = o2.update(o2.key(*ks[s]), f"{s}{n[s]}")
                except Stop as st:
                    if mode == "any" and "NotImplementedError" in w.it.exc_names(st.exc):
                        return
                    raise
                if s == history[-1]:
                    # settings of different keys assumed equal: the values agree, their terms do not
                    if any(d and c.op == "cmp" and c.args[0] in ("==", "Eq") and not any(is_const(x) for x in c.args[1:]) for d, c, _ in w.it.taken if isinstance(c, Term)):
                        return
                    t.full = True
                    compare(w, u1, u2, "isolation", f"{mode} {history}", f"the update of {ks[s]} differs with and without the other updates in {history}")
        return body

    for mode in MODES | {"radam-const": dict(flags=(("use_radam", True),), values=(("beta1", 0.9), ("beta2", 0.999)))}:
        hs = ["ab", "aab", "cab", "ba+b", "b+ab"] if mode != "any" else ["ab", "ba+b"]
        for h in hs:
            ps = R.scenario("isolation", "thinc.optimizers", "Optimizer.__call__", f"{mode}, updates {h}", iso(mode, h), OptHooks, limit=400, clean=lambda c: True)
            if not any(getattr(t, "full", False) for t in ps):
                raise Incomplete(f"isolation {mode} {h}: nothing compared")

    def steps(mode):
        m = MODES[mode]
        values = {"learn_rate": 0.1, "beta1": 0.9, "beta2": 0.999, "eps": 1e-8, "L2": 0.01, "grad_clip": 1.0}
        values |= dict(m.get("values", ())) | {z: 0.0 for z in m.get("zero", ())}
        flags = tuple(m["flags"]) + (("L2_is_weight_decay", True), ("use_averages", True))

        def body(w, t):
            o1 = Opt(w, P, flags, (), values=tuple(values.items()))
            o2 = Opt(w, P, flags, (), values=tuple(values.items()))
            w.call(o2.obj, "step_schedules")
            for i in (1, 2):
                w.call(o2.obj, "step_schedules")
                u1, u2 = o1.update(o1.key(11), f"{i}"), o2.update(o2.key(11), f"{i}")
                compare(w, u1, u2, "step-independent", f"{mode} update {i}", f"update {i} of a parameter differs at another step although every setting is constant")
            t.full = True
        return body

    for mode in MODES:
        ps = R.scenario("step-independent", "thinc.optimizers", "Optimizer.__call__", f"{mode}, constant settings", steps(mode), OptHooks, limit=200, clean=lambda c: True)
        if not any(getattr(t, "full", False) for t in ps):
            raise Incomplete(f"step {mode}: nothing compared")
