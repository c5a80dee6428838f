"""Rules about the schedules."""
import ast

from .scen import *
from .interp import _unwrap
from .ratform import Forms, decided
from .rules_model import Calls
from .rules_state import leaves
from .rules_optim import Opt, OptHooks

MOD = "thinc.schedules"


def ctors(P):
    """The registered schedule constructors: name -> FunctionDef."""
    out = {}
    for n, d in P.modules[MOD].defs.items():
        if isinstance(d, ast.FunctionDef) and any("registry.schedules" in ast.unparse(x) for x in d.decorator_list):
            out[n] = d
    return out


def func(w, P, n, mod=MOD):
    return w.it.from_res(P.resolve(mod, n), P.modules[mod], n)


def inner(w, P, n="inner"):
    return w.it.call(func(w, P, "Schedule"), [const(n), distinct("schedfn:" + n)], [], w.node)


def make(w, P, n, d, given=None):
    """A schedule with a distinct value for every argument."""
    args = {}
    kw = []
    for a in d.args.args + d.args.kwonlyargs:
        ann = ast.unparse(a.annotation) if a.annotation else ""
        if given and a.arg in given:
            v = given[a.arg]
        elif "Schedule" in ann:
            v = inner(w, P, a.arg)
        else:
            v = distinct("arg:" + a.arg)
        args[a.arg] = v
        kw.append((a.arg, v))
    return w.it.call(func(w, P, n), [], kw, w.node), args


def call(w, s, step, **kw):
    return w.it.freeze(w.it.call(s, [step], list(kw.items()), w.node))


def ints(*xs):
    return [const(x) for x in xs]


def T(op, a, b):
    return mk("bin", op, lift(a), lift(b))


def lift(x):
    return x if isinstance(x, Term) else const(x)


# the documented values
def f_decaying(a, step, w):
    return [([], a["base_rate"] / (1 + a["decay"] * (a["t"] + step)))]


class X:
    """Arithmetic on terms."""

    def __init__(self, t):
        self.t = t.t if isinstance(t, X) else lift(t)

    def __add__(self, o): return X(T("Add", self.t, X(o).t))
    def __radd__(self, o): return X(o) + self
    def __sub__(self, o): return X(T("Sub", self.t, X(o).t))
    def __rsub__(self, o): return X(o) - self
    def __mul__(self, o): return X(T("Mult", self.t, X(o).t))
    def __rmul__(self, o): return X(o) * self
    def __truediv__(self, o): return X(T("Div", self.t, X(o).t))
    def __rtruediv__(self, o): return X(o) / self
    def __pow__(self, o): return X(T("Pow", self.t, X(o).t))


def m(name, *a):
    return X(mk("call", name, tuple(X(x).t for x in a), ()))


FORMULA = {
    "constant": lambda a, s: [([], a["rate"])],
    "constant_then": lambda a, s: [([(s, a["steps"], True)], a["rate"]), ([(s, a["steps"], False)], "inner")],
    "decaying": lambda a, s: [([], a["base_rate"] * (1 / (1 + a["decay"] * (a["t"] + s))))],
    "compounding": lambda a, s: [([(a["stop"], a["start"], True)], m("max", a["start"] * a["compound"] ** (s + a["t"]), a["stop"])),
                                 ([(a["stop"], a["start"], False)], m("min", a["start"] * a["compound"] ** (s + a["t"]), a["stop"]))],
    "slanted_triangular": lambda a, s: [([(s + a["t"] + 1, a["cut"], True)], a["max_rate"] * (1 + ((s + a["t"] + 1) / a["cut"]) * (a["ratio"] - 1)) / a["ratio"]),
                                        ([(s + a["t"] + 1, a["cut"], False)],
                                         a["max_rate"] * (1 + (1 - (s + a["t"] + 1 - a["cut"]) / (a["cut"] * (1 / a["cut_frac"] - 1))) * (a["ratio"] - 1)) / a["ratio"])],
    "cyclic_triangular": lambda a, s: [([], a["min_lr"] + (a["max_lr"] - a["min_lr"]) * m(
        "max", 0, 1 - m("abs", (s + 1) / a["period"] - 2 * m("floor", 1 + (s + 1) / (2 * a["period"])) + 1)))],
    "warmup_linear": lambda a, s: [([(s, a["warmup_steps"], True)], s / m("max", 1, a["warmup_steps"]) * a["initial_rate"]),
                                   ([(s, a["warmup_steps"], False)], m("max", 0, (a["total_steps"] - s) / m("max", 1, a["total_steps"] - a["warmup_steps"])) * a["initial_rate"])],
}


def resolved(it, F, t):
    """The term with each max and min the path decided replaced by its operand."""
    if not isinstance(t, Term):
        return tuple(resolved(it, F, x) for x in t) if isinstance(t, tuple) else t
    t = mk(t.op, *[resolved(it, F, x) for x in t.args])
    if t.op == "call" and t.args[0] in ("max", "min") and len(t.args[1]) == 2:
        a, b = t.args[1]
        less = decided(it, F, a, b)
        if less is None:
            more = decided(it, F, b, a)
            less = None if more is None else not more
        if less is not None:
            return b if less == (t.args[0] == "max") else a
    return t


def rule_schedules(P, ck):
    ck.rule("arguments", "Every argument of a schedule constructor influences the values of the schedule.", 15)
    ck.rule("formula", "The values follow the documented formula for every step and every argument (equality of rational functions; one case per branch).", 8)
    ck.rule("inner", "A schedule that wraps another one passes it the step and everything the caller passed, including the last score.", 4)
    ck.rule("stateless", "The value of a schedule at a step does not depend on the steps it was called with before (plateau: on anything but the scores).", 6)
    ck.rule("step", "A negative step, and a negative start or step size of a generator, is refused.", 4)
    ck.rule("generator", "to_generator yields the values at start, start + step_size, ... and passes the extra arguments.", 4)
    R = Rules(P, ck)
    cs = ctors(P)
    if len(cs) < 8:
        raise Incomplete(f"only {len(cs)} schedules found")

    for n, d in sorted(cs.items()):
        used = set()
        wraps = [a.arg for a in d.args.args + d.args.kwonlyargs if a.annotation and "Schedule" in ast.unparse(a.annotation)]
        pieces = set()

        def body(w, t):
            it = w.it
            F = Forms(it)
            s, a = make(w, P, n, d)
            step, key, score = distinct("step"), distinct("key"), NONE
            if n != "plateau":
                score = it.mktuple([distinct("score step"), distinct("score")])
            log0 = len(it.hooks.log)
            try:
                v = call(w, s, step, key=key, last_score=score)
            except Stop:
                w.req(decided(it, F, step, const(0)) is True, "no exception", f"{n} raises although the step is not negative", rule="step")
                return
            w.req(decided(it, F, step, const(0)) is not True, "negative", "a negative step is accepted", rule="step")
            if decided(it, F, step, const(0)) is True:
                return
            lv = leaves(v)
            for c in it.taken:
                lv |= leaves(c[1])
            for k, x in a.items():
                if k in wraps:
                    if any(y.op == "call" and y.args[0] == "schedfn:" + k for y in lv):
                        used.add(k)
                elif x in lv:
                    used.add(k)
            # what the wrapped schedules got
            calls = [r for r in it.hooks.log[log0:] if str(r[0]).startswith("schedfn:")]
            for nm, args, kw, e in calls:
                dk = {k: it.freeze(x) for k, x in kw}
                st = dk.get("step", it.freeze(args[1]) if len(args) > 1 else None)
                w.req(st is step, "step", f"the wrapped schedule is called with {show(st) if st is not None else 'no step'}", e, rule="inner")
                w.req(dk.get("key") is key, "extra", "the wrapped schedule does not get the extra arguments of the call", e, rule="inner")
                w.req("last_score" in dk and dk["last_score"] is it.freeze(score), "last_score", "the wrapped schedule does not get the last score of the call", e, rule="inner")
            # formula
            if n in FORMULA:
                ax = {k: X(x) for k, x in a.items() if k not in wraps}
                if n == "slanted_triangular":
                    ax["cut"] = X(mk("call", "int", (T("Mult", a["num_steps"], a["cut_frac"]),), ()))
                hit = False
                for i, (conds, val) in enumerate(FORMULA[n](ax, X(step))):
                    if all(decided(it, F, X(p).t, X(q).t) is r for p, q, r in conds):
                        hit = True
                        pieces.add(i)
                        if val == "inner":
                            ok = isinstance(v, Term) and v.op == "call" and str(v.args[0]).startswith("schedfn:")
                            w.req(ok, f"case {i}", f"the value is {show(v)}, not the value of the wrapped schedule", rule="formula")
                        else:
                            w.req(F.equal(v, X(val).t) or F.equal(v, resolved(it, F, X(val).t)), f"case {i}", f"the value {show(v)} is not {show(X(val).t)}", rule="formula")
                w.req(hit, "case", "a path follows none of the documented cases", rule="formula")
            # the same again, after another step
            try:
                call(w, s, const(100), key=key, last_score=score)
            except Stop:
                pass
            v2 = call(w, s, step, key=key, last_score=score)
            w.req(F.equal(v, v2), "again", f"the value at a step is {show(v)} first and {show(v2)} after other steps", rule="stateless")

        ps = R.scenario("arguments", MOD, n, "any step", body, OptHooks, limit=200)
        node = d
        for a in d.args.args + d.args.kwonlyargs:
            ck.instance("arguments", f"{n}: {a.arg}")
            if a.arg not in used and not (n == "plateau" and a.arg == "max_patience"):  # see rule_plateau
                ck.finding("arguments", node, f"the argument {a.arg} has no influence on the values", n, key=a.arg)
        if n in FORMULA and len(pieces) != len(FORMULA[n](*_dummy(d))):
            ck.finding("formula", node, "not every documented case occurs", n, key="cases")

    # ---------------------------------------------------------- generators
    def gen(w, t):
        it = w.it
        s = inner(w, P)
        key = distinct("key")
        g = w.call(s, "to_generator", const(2), const(3), key=key)
        nxt = Builtin("next")
        for i in (2, 5, 8):
            v = it.freeze(it.call(nxt, [g], [], w.node))
            dk = dict((k, x) for k, x in v.args[2]) if isinstance(v, Term) and v.op == "call" else {}
            st = dk.get("step") or (v.args[1][0] if isinstance(v, Term) and v.op == "call" and v.args[1] else None)
            w.req(st is const(i), f"step {i}", f"the generator yields {show(v)} instead of the value at step {i}", rule="generator")
            w.req(dk.get("key") is key, f"extra {i}", "the generator does not pass the extra arguments", rule="generator")
        g = w.call(s, "to_generator")
        for i in (0, 1):
            v = it.freeze(it.call(nxt, [g], [], w.node))
            st = (v.args[1][0] if isinstance(v, Term) and v.op == "call" and v.args[1] else None) or (dict(v.args[2]).get("step") if isinstance(v, Term) and v.op == "call" else None)
            w.req(st is const(i), f"default step {i}", f"a generator without arguments yields {show(v)} instead of the value at step {i}", rule="generator")
        for a, kw in ((( const(-1),), {}), ((const(0), const(-1)), {})):
            w.req(R.raises(w, lambda: w.call(s, "to_generator", *a), ["ValueError"]) is not None, f"refuses {[cval(x) for x in a]}", "a negative start or step size is accepted", rule="step")
        w.req(R.raises(w, lambda: it.call(s, [const(-1)], [], w.node), ["ValueError"]) is not None, "refuses step -1", "a negative step is accepted", rule="step")

    def own(w, t):
        it = w.it
        S = func(w, P, "Schedule")
        f = distinct("schedfn:x")
        a = it.call(S, [const("a"), f], [], w.node)
        it.setitem(w.get(a, "attrs"), const("x"), const(1), w.node)
        b = it.call(S, [const("b"), f], [], w.node)
        w.req(not (w.mapping(w.get(b, "attrs")) or {}), "own attrs", "two schedules without attrs share one dict", rule="stateless")
        d = D(x=const(1))
        c = it.call(S, [const("c"), f], [("attrs", d)], w.node)
        it.setitem(w.get(c, "attrs"), const("y"), const(1), w.node)
        w.req("y" not in (w.mapping(d) or {}), "copied attrs", "a schedule shares the dict of attrs it was given", rule="stateless")
    R.scenario("stateless", MOD, "Schedule.__init__", "attrs", own, OptHooks)

    R.scenario("generator", MOD, "Schedule.to_generator", "start, step size, extra", gen, OptHooks)


def _dummy(d):
    a = {x.arg: X(distinct("arg:" + x.arg)) for x in d.args.args + d.args.kwonlyargs}
    a["cut"] = X(distinct("cut"))
    return a, X(distinct("step"))


def rule_plateau(P, ck):
    ck.rule("plateau", "After every history of scores the value is scale**n times the wrapped value, where n counts the times max_patience evaluations in a row "
            "brought no new best score; a score that was already seen does not count again.", 40)
    R = Rules(P, ck)
    d = ctors(P).get("plateau")
    if d is None:
        raise Incomplete("plateau not found")
    # one letter per call: e = a new evaluation, r = the previous one again, - = no score yet
    hist = ["-e", "ee", "ere", "eee", "ee-e", "eerre", "eeee", "eeeee", "eeree", "--ee-ee"]

    def mkbody(h, patience):
        def body(w, t):
            it = w.it
            F = Forms(it)
            scale = distinct("arg:scale")
            s, a = make(w, P, "plateau", d, {"max_patience": const(patience), "scale": scale})
            best, bad, n, last = None, 0, 0, None
            for i, c in enumerate(h):
                step = const(10 * i)
                score = NONE
                if c == "e":
                    last = (const(10 * i), distinct(f"score {i}"))
                    if best is None:
                        best = last[1]
                    elif it.truth(it.compare("Gt", last[1], best), w.node):
                        best, bad = last[1], 0
                    else:
                        bad += 1
                        if bad == patience:
                            n, bad = n + 1, 0
                if c in "er":
                    score = it.mktuple(list(last))
                v = call(w, s, step, last_score=score)
                iv = mk("call", "schedfn:schedule", (step,), (("last_score", it.freeze(score)),))
                iv = [x for x in leaves(v) if x.op == "call" and x.args[0] == "schedfn:schedule"]
                if not w.req(len(iv) == 1, f"{h} inner {i}", f"the value does not use the wrapped schedule once ({show(v)})"):
                    return
                want = (X(scale) ** n * X(iv[0])).t
                if not w.req(F.equal(v, want), f"{h} patience {patience} call {i}", f"after the calls {h[:i + 1]} (e: new evaluation, r: the same again, -: none) with max_patience {patience} "
                             f"the value is {show(v)} instead of scale**{n} * inner"):
                    return
        return body

    for p in (1, 2, 3):
        for h in hist:
            R.scenario("plateau", MOD, "plateau", f"max_patience {p}, calls {h}", mkbody(h, p), OptHooks, limit=200, clean=lambda c: True)

    def old(w, t):
        it = w.it
        s, a = make(w, P, "plateau", d, {"max_patience": const(3)})
        x, y = distinct("score 1"), distinct("score 2")
        call(w, s, const(5), last_score=it.mktuple([const(5), x]))
        if it.truth(it.compare("Gt", y, x), w.node):
            return
        w.req(R.raises(w, lambda: call(w, s, const(6), last_score=it.mktuple([const(4), y])), ["ValueError"]) is not None, "older score",
              "a score from an earlier step than the last one is accepted")
    R.scenario("plateau", MOD, "plateau", "an older score", old, OptHooks)

    def two(w, t):
        it = w.it
        s, a = make(w, P, "plateau", d, {"max_patience": const(1), "scale": distinct("arg:scale")})
        s2, _ = make(w, P, "plateau", d, {"max_patience": const(1), "scale": distinct("arg:scale")})
        x = distinct("score 1")
        for i in (1, 2, 3):
            call(w, s, const(i), last_score=it.mktuple([const(i), x]))
        v = call(w, s2, const(4), last_score=it.mktuple([const(4), x]))
        w.req(not any(y is distinct("arg:scale") for y in leaves(v)) or Forms().equal(v, [z for z in leaves(v) if z.op == "call"][0]), "own state", "two plateau schedules share their state")
    R.scenario("plateau", MOD, "plateau", "two schedules", two, OptHooks)


def rule_settings(P, ck):
    ck.rule("given", "Every constructor of optimizers hands each setting to the update under its own name; a constant becomes a constant schedule, a list or "
            "generator one value per step with the last one kept, a schedule is used as it is, anything else is refused.", 25)
    ck.rule("defaults", "A setting that is not given has the value listed under its name in the defaults.", 15)
    ck.rule("score", "step_schedules advances the step by one; a score that is set is stored with the step it was set at.", 3)
    R = Rules(P, ck)
    OM = "thinc.optimizers"
    om = P.modules[OM]

    def val(w, o, attr, step=0):
        s = w.get(o, attr)
        return w.it.freeze(w.it.call(s, [const(step)], [], w.node))

    NAMES = Opt.NAMES

    def given(ctor):
        node = find_def(P, OM, ctor if ctor != "Optimizer" else "Optimizer.__init__")
        params = [a.arg for a in node.args.args + node.args.kwonlyargs if a.arg != "self"]

        def body(w, t):
            it = w.it
            C = func(w, P, ctor, OM)
            kw, want = [], {}
            for p in params:
                if p in NAMES:
                    kw.append((p, inner(w, P, p)))
            o = _unwrap(it.call(C, [], kw, w.node))
            for p in params:
                if p in NAMES:
                    v = val(w, o, NAMES[p])
                    w.req(isinstance(v, Term) and v.op == "call" and v.args[0] == "schedfn:" + p, p, f"{ctor}({p}=...) ends up elsewhere: the optimizer's {p} is {show(v)}", rule="given")
            for p in params:
                if p in ("use_averages", "L2_is_weight_decay", "use_radam"):
                    for b in (TRUE, FALSE):
                        o = _unwrap(it.call(C, [], [("learn_rate", const(0.1)), (p, b)], w.node))
                        v = w.get(o, "averages" if p == "use_averages" else p)
                        ok = (v is NONE) == (b is FALSE) if p == "use_averages" else v is b
                        w.req(ok, f"{p}={cval(b)}", f"{ctor}({p}={cval(b)}) gives an optimizer with {show(v)}", rule="given")
            o = _unwrap(it.call(C, [const(0.1)], [], w.node))
            ur = w.get(o, "use_radam")
            if ctor != "Optimizer":
                w.req(ur is (TRUE if ctor == "RAdam" else FALSE), "kind", f"{ctor} gives an optimizer with use_radam={show(ur)}", rule="given")
            if ctor == "SGD":
                for a in ("b1", "b2"):
                    v = val(w, o, a)
                    w.req(is_const(v) and cval(v) == 0, "no momentum", f"SGD has {a}={show(v)}", rule="given")
            # defaults
            D_ = "SGD_DEFAULTS" if ctor == "SGD" else "ADAM_DEFAULTS"
            dd = w.mapping(it.from_res(P.resolve(OM, D_), om, D_)) or {}
            dd = {k: it.freeze(v) for k, v in dd.items()}
            if not dd:
                raise Incomplete(f"{D_} not readable")
            req_ = [p for p in params if p == "learn_rate"] if ctor in ("SGD", "Optimizer") else []
            o = _unwrap(it.call(C, [], [(p, const(0.1)) for p in req_], w.node))
            for p in params:
                if p in req_ or p not in dd:
                    continue
                v = val(w, o, NAMES[p]) if p in NAMES else w.get(o, p)
                w.req(is_const(v) and cval(v) == cval(dd[p]) and type(cval(v)) is not bool or v is dd[p], p, f"{ctor}() has {p}={show(v)}, {D_} says {show(dd[p])}", rule="defaults")
        return body

    for c in ("Adam", "RAdam", "SGD", "Optimizer"):
        R.scenario("given", OM, c, "settings", given(c), OptHooks, clean=lambda c: True)

    for p, attr in NAMES.items():
        def kinds(w, t, p=p, attr=attr):
            it = w.it
            C = func(w, P, "Optimizer", OM)
            rest = [("learn_rate", const(0.5))] if p != "learn_rate" else []
            new = lambda v: _unwrap(it.call(C, [], rest + [(p, v)], w.node))
            for x in (0.25, 3, 0):
                v = val(w, new(const(x)), attr, 5)
                w.req(is_const(v) and cval(v) == x, f"{p} constant", f"{p}={x} becomes {show(v)}", rule="given")
            a, b, c = distinct("v0"), distinct("v1"), distinct("v2")
            for steps, want in (((0, 0, 1, 2, 3, 50), (a, a, b, c, c, c)), ((2,), (c,)), ((0, 2, 2), (a, c, c)), ((1, 7), (b, c))):
                o = new(it.mklist([a, b, c]) if hasattr(it, "mklist") else L(a, b, c))
                got = [val(w, o, attr, s) for s in steps]
                w.req(all(x is y for x, y in zip(got, want)), f"{p} list {steps}", f"{p}=[v0, v1, v2] gives {[show(x) for x in got]} at the steps {list(steps)}", rule="given")
            o = new(L(a, b, c))
            val(w, o, attr, 2)
            w.req(R.raises(w, lambda: val(w, o, attr, 1), ["ValueError"]) is not None, f"{p} back", "a generator can be asked for an earlier step", rule="given")
            w.req(R.raises(w, lambda: new(L()), ["ValueError"]) is not None, f"{p} empty", "an empty list is accepted", rule="given")
            w.req(R.raises(w, lambda: new(const("x")), ["ValueError"]) is not None, f"{p} str", "a string is accepted", rule="given")
        R.scenario("given", OM, "Optimizer.__init__", f"kinds of {p}", kinds, OptHooks, clean=lambda c: True)

    def score(w, t):
        o = Opt(w, P)
        w.req(w.get(o.obj, "step") is const(0), "first step", "the first step is not 0", rule="score")
        w.req(w.get(o.obj, "last_score") is NONE, "no score", "a new optimizer has a score", rule="score")
        for i in (1, 2, 3):
            w.call(o.obj, "step_schedules")
            w.req(w.get(o.obj, "step") is const(i), f"step {i}", f"after {i} times step_schedules the step is {show(w.get(o.obj, 'step'))}", rule="score")
            if i == 2:
                w.it.setattr(o.obj, "last_score", distinct("score"), w.node)
        ls = [w.it.freeze(x) for x in w.seq(w.get(o.obj, "last_score"))]
        w.req(len(ls) == 2 and ls[0] is const(2) and ls[1] is distinct("score"), "score", f"the score set at step 2 is stored as {[show(x) for x in ls]}", rule="score")
        b = Opt(w, P)
        w.req(w.get(b.obj, "step") is const(0), "own step", "two optimizers share their step", rule="score")
    R.scenario("score", OM, "Optimizer.step_schedules", "step and score", score, OptHooks, clean=lambda c: True)
