"""Rules about scopes that change state temporarily, and about the state one
node keeps (dimensions, parameters, gradients, references, ids, operators)."""
import ast

from .scen import *
from .interp import _unwrap
from .rules_model import tree, Calls, strkeys, soft
from .heap import Gen

RAISED = ("ext", "Exception")


class Fails(Calls):
    """Every opaque method or function call is recorded; the k-th raises."""
    k = None

    def __init__(self):
        super().__init__()
        self.n = 0
        self.seq = []
        self.hit = None
        self.armed = True

    def may_raise(self, it, f, e):
        if not self.armed:
            return False
        self.seq.append((f.args[0], f.args[1], e))
        self.n += 1
        if self.k is not None and self.n == self.k + 1:
            self.hit = self.seq[-1]
            return True
        return False


def fails(k):
    return type(f"Fails{k}", (Fails,), {"k": k})


def scope(w, cm, inside, exc=None):
    """Enter the context manager, do `inside`, leave it (by an exception)."""
    it = w.it
    cm = _unwrap(cm)
    x = it.enter(cm, w.node)
    try:
        inside(x)
        if exc is not None:
            raise Stop(exc, w.node)
    except Stop as s:
        if not it.leave(cm, w.node, s):
            raise
        return "swallowed"
    it.leave(cm, w.node, None)
    return None


def body_exc():
    return mk("ext", "KeyboardInterrupt")


def contextmanagers(P):
    for mn, m in sorted(P.modules.items()):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.FunctionDef) and any("contextmanager" in ast.unparse(d) for d in n.decorator_list):
                yield m, n


def params_for(w, x, which):
    d = Obj("dict")
    for n, p in which:
        d.items.append((w.it.mktuple([w.get(x[n], "id"), const(p)]), distinct(f"arr:avg {n}.{p}")))
    d.items.append((w.it.mktuple([const(99991), const("W")]), distinct("arr:foreign")))
    return d


def pstate(w, x):
    return {f"{cval(w.get(n, 'name'))}.{p}": w.call(n, "maybe_get_param", const(p)) for n in x["nodes"] for p in w.names(w.get(n, "param_names"))}


def rule_scopes(P, ck):
    ck.rule("scope", "A scope that changes parameters, operators, the backend, a validation flag or the mode of a framework model puts back "
            "exactly what it found, whether it is left normally, by an exception in its body, or by an exception while it is being entered.", 14)
    ck.rule("scope-form", "In every context manager of the package, statements that follow the yield also run when the body raises.", 5)
    R = Rules(P, ck)

    for m, n in contextmanagers(P):
        ck.anchor = f"{m.rel}:{n.name}"
        ck.instance("scope-form", f"{m.name}.{n.name}")
        for y, after in unprotected(n):
            ck.finding("scope-form", y, f"the statement at line {after.lineno} does not run when the body of the scope raises", n.name, key=n.name)
    ck.anchor = None

    # ---- operators
    def cvars(w):
        return {f"{k[0]}.{k[1]}": v for k, v in w.it.cvars.items() if v is not None}

    def glob(w):
        return {**cvars(w), **{f"{k}": v for k, v in w.it.globs.items() if k[0] != "cvd"}, **{f"{k}": v for k, v in w.it.clsattrs.items()}}

    def opscope(exc):
        def body(w, t):
            a, b = distinct("fn:a"), distinct("fn:b")
            outer, inner = w.it.shallow(D()), D()
            outer.items = [(const("+"), a), (const(">>"), a)]
            inner.items = [(const("+"), b)]
            m, o = w.model("m"), w.model("o")
            C = Class(w.M, w.M.defs["Model"])
            define = lambda d: w.it.call(w.it.getattr(C, "define_operators", w.node), [d], [], w.node)
            plus = lambda: w.call(m, "__add__", o)

            def by(fn, text):
                n0 = len(w.it.hooks.log)
                plus()
                c = w.it.hooks.log[n0:]
                w.req(len(c) == 1 and c[0][0] == fn.args[0] and list(c[0][1]) == [m, o], "bound", text)

            def in_outer(_):
                by(a, "the operator is not bound to its function inside of the scope")

                def in_inner(_):
                    by(b, "an inner scope does not replace the operators")
                    w.req(R.raises(w, lambda: w.call(m, "__rshift__", o), ["TypeError"]), "inner only", "operators of an outer scope are still defined inside of an inner one")
                    w.it.setitem(inner, const("+"), a, w.node)
                    by(b, "changing the dictionary afterwards changes the operators of the scope")
                try:
                    scope(w, define(inner), in_inner, exc)
                except Stop as s:
                    if exc is None:
                        raise
                by(a, "leaving an inner scope does not restore the operators of the outer one")
            w.req(R.raises(w, plus, ["TypeError"]), "undefined", "an operator that is not defined does not raise TypeError")
            before = glob(w)
            try:
                r = scope(w, define(outer), in_outer, exc)
                w.req(exc is None or r != "swallowed", "propagates", "the scope swallows an exception")
            except Stop as s:
                w.req(exc is not None and s.exc is exc, "exception", f"leaving the scope raises {excname(w.it, s)}")
            w.req(R.raises(w, plus, ["TypeError"]), "restored", "operators are still defined after the scope")
            d = diff(before, glob(w))
            w.req(d is None, "state", f"the scope leaves other state behind: {d}")
        return body
    for exc in (None, body_exc()):
        R.scenario("scope", "thinc.model", "Model.define_operators", "nested scopes" + (" left by an exception" if exc else ""), opscope(exc), Calls)

    # ---- parameters
    full = [("s", "W"), ("c", "W"), ("c", "b"), ("a", "E")]

    def use_params(exc, which):
        def body(w, t):
            w.it.hooks.armed = False
            x = tree(w)
            w.call(x["c"], "inc_grad", const("W"), distinct("arr:gWc"))
            before, deep = pstate(w, x), strkeys(w.deep(x["root"]))
            ps = params_for(w, x, which)
            given = {f"{n}.{p}": distinct(f"arr:avg {n}.{p}") for n, p in which}
            w.it.hooks.armed = True

            def inside(_):
                now = pstate(w, x)
                for k, v in before.items():
                    if k in given:
                        w.req(now[k] is given[k], "inside", f"inside of use_params the parameter {k} is {show(now[k])}, not the given value")
                    else:
                        w.req(ident(now[k], v), "inside others", f"inside of use_params the parameter {k} changes although no value was given")
                if exc is None:
                    w.it.hooks.armed = False
            try:
                scope(w, w.call(x["root"], "use_params", ps), inside, exc)
            except Stop as s:
                if exc is None and w.it.hooks.hit is None:
                    raise
            t.hit = w.it.hooks.hit
            w.it.hooks.armed = False
            now = pstate(w, x)
            for k, v in before.items():
                how = f" after an exception in {w.it.hooks.hit[1]}()" if w.it.hooks.hit else (" after an exception" if exc else "")
                w.req(ident(now[k], v), "restored", f"use_params leaves {k} as {show(now[k])}{how}")
            d = diff(deep, strkeys(w.deep(x["root"])))
            w.req(d is None, "state", f"use_params changes {d}")
            if w.it.hooks.hit is None:
                for sh in x["sh"]:
                    w.req(any(c[0] == sh.args[0] and c[1] == "use_params" and c[2] and c[2][0] is ps for c in w.it.hooks.log), "shims",
                          "use_params does not apply the parameters to a shim")
        return body
    for which in (full, full[:1], []):
        for exc in (None, body_exc()):
            R.scenario("scope", "thinc.model", "Model.use_params", f"{len(which)} parameters" + (" left by an exception" if exc else ""), use_params(exc, which), Fails)
    for k in range(12):
        ps = R.scenario("scope", "thinc.model", "Model.use_params", f"entering fails at call {k}", use_params(None, full), fails(k))
        if not any(getattr(t, "hit", None) for t in ps):
            break

    # ---- backend
    def ops(exc, k=None):
        def body(w, t):
            old = distinct("ops:old")
            w.func("thinc.backends", "set_current_ops", old)
            g = lambda: w.func("thinc.backends", "get_current_ops")
            tstate = lambda: w.get(w.func("thinc.backends", "_get_thread_state"), "ops")
            before = cvars(w)
            w.req(tstate() is old, "thread state set", "set_current_ops does not set the backend of the thread")

            def inside(_):
                v = g()
                w.req(isinstance(v, Term) and v.op == "call" and v.args[0] == "get_ops" and distinct("opsname") in v.args[1], "inside", f"inside of use_ops the backend is {show(v)}")
            try:
                scope(w, w.func("thinc.backends", "use_ops", distinct("opsname")), inside, exc)
            except Stop as s:
                if exc is None or s.exc is not exc:
                    raise
            w.req(g() is old, "restored", "use_ops does not restore the previous backend")
            d = diff(before, cvars(w))
            w.req(d is None, "state", f"use_ops changes {d}")
            w.req(tstate() is old, "thread state", "use_ops does not restore the backend of the thread")
        return body
    for exc in (None, body_exc()):
        R.scenario("scope", "thinc.backends", "use_ops", "backend" + (" left by an exception" if exc else ""), ops(exc), Calls)

    def ops_fail(w, t):
        old = distinct("ops:old")
        w.func("thinc.backends", "set_current_ops", old)
        w.it.hooks.getops_fails = True
        try:
            scope(w, w.func("thinc.backends", "use_ops", distinct("opsname")), lambda _: None)
            w.req(False, "raises", "use_ops ignores that the backend does not exist")
        except Stop:
            pass
        w.req(w.func("thinc.backends", "get_current_ops") is old, "restored", "use_ops with an unknown backend changes the current one")
    R.scenario("scope", "thinc.backends", "use_ops", "unknown backend", ops_fail, GetOpsFails)

    # ---- validation flag
    def validation(exc):
        def body(w, t):
            var = w.it.from_res(P.resolve("thinc.util", "DATA_VALIDATION"), P.modules["thinc.util"], "DATA_VALIDATION")
            cur = lambda: w.call(var, "get")
            before, new = cur(), distinct("validation")
            inner = distinct("inner")

            def inside(_):
                w.req(cur() is new, "inside", "inside of data_validation the flag is not the given one")
                scope(w, w.func("thinc.util", "data_validation", inner), lambda _: w.req(cur() is inner, "nested", "a nested data_validation has no effect"))
                w.req(cur() is new, "nested restored", "a nested data_validation does not restore the outer flag")
            try:
                scope(w, w.func("thinc.util", "data_validation", new), inside, exc)
            except Stop as s:
                if exc is None or s.exc is not exc:
                    raise
            w.req(cur() is before, "restored", "data_validation does not restore the flag")
            w.req(not w.it.held, "locks", "data_validation leaves a lock held")
        return body
    for exc in (None, body_exc()):
        R.scenario("scope", "thinc.util", "data_validation", "flag" + (" left by an exception" if exc else ""), validation(exc), Calls)

    # ---- temporary files, profiling ranges
    def paired(mod, fn, args, closing):
        def make(exc):
            def body(w, t):
                evs = lambda: [e for e in w.it.events if e.kind == "call"]
                try:
                    scope(w, w.func(mod, fn, *args), lambda x: setattr(t, "mark", len(w.it.events)), exc)
                except Stop as s:
                    if exc is None or s.exc is not exc:
                        raise
                pre = [short(e.data["name"]) for e in w.it.events[:t.mark] if e.kind == "call"]
                post = [short(e.data["name"]) for e in w.it.events[t.mark:] if e.kind == "call"]
                for op, cl in closing:
                    if op in pre:
                        t.seen = True
                        w.req(post.count(cl) == pre.count(op), f"{op}", f"{fn} calls {op} {pre.count(op)} times on entry but {cl} {post.count(cl)} times on exit" + (" by an exception" if exc else ""))
            return body
        seen = 0
        for exc in (None, body_exc()):
            for t in R.scenario("scope", mod, fn, "opening and closing calls" + (" left by an exception" if exc else ""), make(exc), Calls):
                seen += bool(getattr(t, "seen", False))
        if not seen:
            raise Incomplete(f"{fn}: no path makes the opening call")
    paired("thinc.util", "make_tempfile", [distinct("mode")], [("NamedTemporaryFile", "remove"), ("NamedTemporaryFile", "close")])
    paired("thinc.util", "use_nvtx_range", [distinct("message")], [("RangePush", "RangePop")])

    # ---- wrapped models
    frameworks(P, ck, R)


class GetOpsFails(Calls):
    getops_fails = False

    def call(self, it, f, args, kw, e):
        if self.getops_fails and isinstance(f, Func) and f.module.name == "thinc.backends" and f.node.name == "get_ops":
            raise Stop(mk("ext", "ValueError"), e)
        return super().call(it, f, args, kw, e)


MODE = {"thinc.shims.pytorch": ("PyTorchShim", "eval", "train"),
        "thinc.shims.tensorflow": ("TensorFlowShim", "set_learning_phase", "set_learning_phase"),
        "thinc.shims.mxnet": ("MXNetShim", "set_training", "set_training")}


def bare_shim(w, P, mod, cls):
    """A shim as its constructor of the base class leaves it."""
    m = P.modules[mod]
    o = Obj("inst", ("cls", m, m.defs[cls]))
    base = P.modules["thinc.shims.shim"]
    w.it.call(Func([n for n in base.defs["Shim"].body if getattr(n, "name", "") == "__init__"][0], base, None, bound=o, cls=(base, base.defs["Shim"])),
              [distinct("net")], [("config", D()), ("optimizer", NONE)], w.node)
    return o


def last_mode(h, enter, leave):
    return [s for s in h.seq if s[1] in (enter, leave)]


def frameworks(P, ck, R):
    for mod, (cls, enter, leave) in MODE.items():
        def predict(k):
            def body(w, t):
                h = w.it.hooks
                h.armed = False
                sh = bare_shim(w, P, mod, cls)
                for f in ("_mixed_precision",):
                    sh.fields.setdefault(f, distinct(f))
                h.armed = True
                mark = len(w.it.events)
                out = None
                try:
                    out = w.call(sh, "predict", w.it.call(w.it.from_res(P.resolve("thinc.types", "ArgsKwargs"), P.modules["thinc.types"], "ArgsKwargs"),
                                                          [w.it.mktuple([distinct("arr:x")]), D()], [], w.node))
                except Stop:
                    if h.hit is None:
                        raise
                t.hit = h.hit
                calls = [e for e in w.it.events[mark:] if e.kind in ("call", "mayraise", "callv")]
                modes = [s for s in h.seq if s[1] in (enter, leave)]
                t.modes = len(modes)
                if h.hit is not None and h.hit[1] in (enter, leave):
                    return
                names = [m[1] for m in modes]
                how = f" when {show(h.hit[0])}.{h.hit[1]} raises" if h.hit else ""
                if enter != leave:
                    if h.hit and not names:
                        return
                    w.req(enter in names, "evaluation", "predict does not switch the wrapped model to evaluation mode")
                    w.req(names and names[-1] == leave, "restored", f"predict leaves the wrapped model in evaluation mode{how}")
                else:
                    w.req(len(names) >= 2 or h.hit and not names, "restored", f"predict leaves the wrapped model in evaluation mode{how}")
            return body
        for k in [None] + list(range(14)):
            ps = R.scenario("scope", mod, f"{cls}.predict", "mode" if k is None else f"mode when call {k} fails", predict(k), fails(k) if k is not None else Fails)
            if k is None and not any(t.modes for t in ps):
                raise Incomplete(f"{cls}.predict: no mode switch seen")
            if k is not None and not any(getattr(t, "hit", None) for t in ps):
                break

    for mod, cls, load, prefix in (("thinc.shims.pytorch", "PyTorchShim", "load_state_dict", "pytorch"), ("thinc.shims.tensorflow", "TensorFlowShim", "_load_weights_from_state_dict", "tensorflow")):
        def use(exc, k=None):
            def body(w, t):
                h = w.it.hooks
                h.armed = False
                sh = bare_shim(w, P, mod, cls)
                key = mk("sym", "paramkey")
                ps = Obj("dict")
                ps.items = [(const(f"{prefix}_{cval(w.get(sh, 'id'))}_w"), distinct("arr:avg"))]
                h.loads = []
                h.target = load
                h.armed = True

                def inside(_):
                    t.inside = len(h.loads)
                try:
                    scope(w, w.call(sh, "use_params", ps), inside, exc)
                except Stop as s:
                    if h.hit is None and (exc is None or s.exc is not exc):
                        raise
                t.hit = h.hit
                if h.hit is not None and (h.hit[1] == load):
                    return
                n = len(h.loads)
                t.loads = n
                if n:
                    w.req(n == 2, "restored", f"use_params loads state into the wrapped model {n} times: the previous state is not put back" + (" after an exception" if exc else ""))
                if n == 2:
                    a, b = h.loads
                    w.req(distinct("arr:avg") in leaves(a[0]), "given", "use_params does not load the given parameters", a[1])
                    w.req(distinct("arr:avg") not in leaves(b[0]), "old state", "use_params ends by loading the given parameters again", b[1])
                    w.req(b[2] is not None and b[2] < a[3], "backup", "the state that is put back was not saved before the parameters were loaded", b[1])
            return body
        for exc in (None, body_exc()):
            ps = R.scenario("scope", mod, f"{cls}.use_params", "state of the wrapped model" + (" left by an exception" if exc else ""), use(exc), Loads)
            if not any(getattr(t, "loads", 0) for t in ps):
                raise Incomplete(f"{cls}.use_params: no path loads parameters")


class Loads(Fails):
    loads = ()
    target = "?"

    def call(self, it, f, args, kw, e):
        n = None
        if isinstance(f, Term) and f.op == "attr":
            n = f.args[1]
        elif isinstance(f, Func):
            n = getattr(f.node, "name", None)
        if n == self.target and self.armed:
            made = getattr(_unwrap(args[0]), "made", None)
            self.loads.append((it.freeze(args[0]), e, birth(it, args[0]), len(it.events)))
            it.event("loaded", e)
            return NONE
        if n in ("state_dict", "_create_state_dict") and self.armed:
            r = D()
            r.items = [(const("w"), distinct("arr:w0")), (const("v"), distinct("arr:v0"))]
            r.birth = len(it.events)
            it.event("saved", e)
            return r
        return super().call(it, f, args, kw, e)


def birth(it, v):
    """When the state was read: the number of events before the value that
    holds it was built (its copies are events of their own)."""
    v = _unwrap(v)
    if isinstance(v, Obj):
        b = getattr(v, "birth", None)
        if b is not None:
            return b
        evs = [i for i, ev in enumerate(it.events) if ev.kind == "saved"]
        return evs[-1] if evs else None
    return None


def leaves(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, Term):
            out.add(x)
            todo += [a for a in x.args if isinstance(a, (Term, tuple))]
        elif isinstance(x, tuple):
            todo += list(x)
    return out


def unprotected(fn):
    """(yield, statement) pairs where the statement follows the yield on the
    normal way out but is skipped when an exception arrives at the yield."""
    out = []

    def has_yield(n):
        todo = [n]
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return x
            if x is not n and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo += list(ast.iter_child_nodes(x))
        return None

    def effect(st):
        if isinstance(st, ast.Return):
            return st.value is not None and any(isinstance(x, ast.Call) for x in ast.walk(st.value))
        if isinstance(st, ast.If):
            return any(effect(x) for x in st.body + st.orelse)
        if isinstance(st, ast.Expr):
            return any(isinstance(x, ast.Call) for x in ast.walk(st))
        if isinstance(st, (ast.Assign, ast.AugAssign)):
            ts = st.targets if isinstance(st, ast.Assign) else [st.target]
            return any(isinstance(x, (ast.Attribute, ast.Subscript)) for t in ts for x in ast.walk(t)) or any(isinstance(x, ast.Call) for x in ast.walk(st.value))
        return not isinstance(st, (ast.Pass, ast.Continue, ast.Break))

    def block(sts):
        for i, st in enumerate(sts):
            y = has_yield(st)
            if y is not None and not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                for later in sts[i + 1:]:
                    if has_yield(later) is None and effect(later):
                        out.append((y, later))
            for f in ("body", "orelse", "finalbody"):
                if not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    block(getattr(st, f, []) if isinstance(getattr(st, f, []), list) else [])
            if isinstance(st, ast.Try):
                if st.orelse and any(has_yield(b) for b in st.body):
                    for later in st.orelse:
                        if effect(later) and has_yield(later) is None:
                            out.append((has_yield(st), later))
    block(fn.body)
    return out


# ------------------------------------------------------------------ node state
def one(w):
    """A node with every kind of entry set and unset."""
    child = w.model("child")
    m = w.model("node", layers=L(child), dims=D(nO=distinct("three"), nI=NONE), params=D(W=distinct("arr:W"), b=NONE),
                refs=D(r=child, u=NONE), attrs=D(k=distinct("val")))
    return m, child


def rule_node(P, ck):
    ck.rule("unknown-name", "Asking a node for a dimension, parameter, gradient or reference it does not have raises KeyError, asking for one that "
            "is unset raises, has_* tells absent (False), unset (None) and set (True) apart, and none of them changes the node.", 14)
    ck.rule("set-dim", "A dimension that is set is never silently changed: setting another value raises and leaves the node as it was; "
            "forcing works only while no parameter is allocated.", 6)
    ck.rule("set-ref", "A reference can only point to a node of the model; a rejected one changes nothing.", 3)
    R = Rules(P, ck)
    st = lambda w, m: strkeys(w.deep(m))

    def names(w, t):
        m, child = one(w)
        before = st(w, m)
        U = const("unknown")
        for what, setname, unset in (("dim", "nO", "nI"), ("param", "W", "b"), ("ref", "r", "u")):
            r = R.raises(w, lambda: w.call(m, f"get_{what}", U))
            w.req(r == "KeyError", f"get_{what} unknown", f"get_{what} of an unknown name {'raises ' + r if r else 'returns a value'} instead of raising KeyError")
            r = R.raises(w, lambda: w.call(m, f"get_{what}", const(unset)))
            w.req(r in ("KeyError", "ValueError"), f"get_{what} unset", f"get_{what} of an unset name {'raises ' + r if r else 'returns a value'}")
            w.req(w.call(m, f"has_{what}", U) is FALSE, f"has_{what} unknown", f"has_{what} of an unknown name is not False")
            w.req(w.call(m, f"has_{what}", const(unset)) is NONE, f"has_{what} unset", f"has_{what} of an unset name is not None")
            w.req(w.call(m, f"has_{what}", const(setname)) is TRUE, f"has_{what} set", f"has_{what} of a set name is not True")
            w.req(w.call(m, f"maybe_get_{what}", U) is NONE, f"maybe_get_{what} unknown", f"maybe_get_{what} of an unknown name is not None")
            w.req(w.call(m, f"maybe_get_{what}", const(unset)) is NONE, f"maybe_get_{what} unset", f"maybe_get_{what} of an unset name is not None")
            w.req(w.call(m, f"maybe_get_{what}", const(setname)) is w.call(m, f"get_{what}", const(setname)), f"maybe_get_{what} set", f"maybe_get_{what} and get_{what} disagree")
        for n in ("unknown", "W", "b"):
            w.req(R.raises(w, lambda: w.call(m, "get_grad", const(n))) == "KeyError", f"get_grad", f"get_grad of a parameter without gradient does not raise KeyError")
            w.req(w.call(m, "has_grad", const(n)) in (FALSE, NONE), "has_grad", "has_grad is true for a parameter without gradient")
            w.req(w.call(m, "maybe_get_grad", const(n)) is NONE, "maybe_get_grad", "maybe_get_grad of a parameter without gradient is not None")
        r = R.raises(w, lambda: w.call(m, "set_dim", U, distinct("v")))
        w.req(r == "KeyError", "set_dim unknown", "set_dim accepts an unknown dimension")
        d = diff(before, st(w, m))
        w.req(d is None, "unchanged", f"reading accessors change the node: {d}")
        w.req([cval(n) for n in w.seq(w.get(m, "dim_names"))] == ["nO", "nI"] and w.names(w.get(m, "param_names")) == ["W", "b"]
              and w.names(w.get(m, "ref_names")) == ["r", "u"], "registered", "dim_names, param_names or ref_names do not list every registered name, set or not")
        w.call(m, "set_param", const("W"), NONE)
        w.req(w.call(m, "has_param", const("W")) is NONE, "unset param", "a parameter set to None is still reported as set")
        w.req(R.raises(w, lambda: w.call(m, "get_param", const("W"))) == "KeyError", "unset param value", "get_param returns the old value of a parameter that was set to None")
    R.scenario("unknown-name", "thinc.model", "Model.get_dim", "accessors", names, Calls)

    def zero(w, t):
        # values that are false in a condition must not count as unset
        z = const(0)
        m = w.model("zero", dims=D(nO=z, nI=NONE), params=D(W=distinct("arr:W")))
        w.req(w.call(m, "has_dim", const("nO")) is TRUE, "zero dim", "has_dim of a dimension of size 0 is not True")
        w.req(w.call(m, "get_dim", const("nO")) is z, "zero get", "get_dim of a dimension of size 0 does not return it")
        w.req(w.call(m, "maybe_get_dim", const("nO")) is z, "zero maybe", "maybe_get_dim of a dimension of size 0 does not return it")
        w.req(R.raises(w, lambda: w.call(m, "set_dim", const("nO"), const(4))) == "ValueError", "zero set", "set_dim silently changes a dimension of size 0")
    R.scenario("set-dim", "thinc.model", "Model.set_dim", "dimension of size 0", zero, Calls)

    def setdim(w, t):
        a, b = const(3), const(4)
        m = w.model("node", dims=D(nO=a, nI=NONE), params=D(W=distinct("arr:W")))
        before = st(w, m)
        for kw in ({}, {"force": TRUE}):
            f = " (forced)" if kw else ""
            w.req(R.raises(w, lambda: w.call(m, "set_dim", const("nO"), b, **kw)) == "ValueError", "change" + f, f"set_dim changes a dimension that is set{f} although parameters are allocated")
            d = diff(before, st(w, m))
            w.req(d is None, "unchanged" + f, f"a rejected set_dim{f} changes the node: {d}")
            w.call(m, "set_dim", const("nO"), a, **kw)
            d = diff(before, st(w, m))
            w.req(d is None, "same value" + f, f"setting a dimension to the value it has changes the node: {d}")
        w.call(m, "set_dim", const("nI"), b)
        w.req(w.call(m, "get_dim", const("nI")) is b, "set", "set_dim does not set a dimension that is unset")
        w.req(w.call(m, "get_dim", const("nO")) is a, "other", "set_dim sets another dimension")
        n = w.model("bare", dims=D(nO=a), params=D(W=NONE))
        w.req(R.raises(w, lambda: w.call(n, "set_dim", const("nO"), b)) == "ValueError", "not forced", "set_dim changes a dimension that is set")
        w.call(n, "set_dim", const("nO"), b, force=TRUE)
        w.req(w.call(n, "get_dim", const("nO")) is b, "forced", "set_dim(force=True) does not change a dimension of a node without parameters")
    R.scenario("set-dim", "thinc.model", "Model.set_dim", "change", setdim, Calls)

    def setref(w, t):
        x = tree(w)
        before = st(w, x["root"])
        outs = [w.model("outside"), w.model("outer", layers=L(x["s"])), w.model("above", layers=L(x["root"])), w.model("root")]
        for n, out in [(n, o) for n in ("s", "none", "brandnew") for o in outs]:
            w.req(R.raises(w, lambda: w.call(x["root"], "set_ref", const(n), out)) == "ValueError", "outside", "set_ref accepts a node that is not part of the model")
        d = diff(before, st(w, x["root"]))
        w.req(d is None, "unchanged", f"a rejected set_ref changes the node: {d}")
        for n in x["nodes"]:
            w.call(x["root"], "set_ref", const("none"), n)
            w.req(w.call(x["root"], "get_ref", const("none")) is n, "inside", "set_ref does not set the reference")
        w.call(x["root"], "set_ref", const("none"), NONE)
        w.req(w.call(x["root"], "has_ref", const("none")) is NONE, "unset", "set_ref(None) does not unset the reference")
        w.req(w.call(x["root"], "get_ref", const("s")) is x["s"], "other", "set_ref changes another reference")
    R.scenario("set-ref", "thinc.model", "Model.set_ref", "reference", setref, Calls)

def rule_grad(P, ck):
    ck.rule("grad", "Gradients accumulate per node and parameter name: the first contribution is stored as a copy, later ones are added, "
            "and no other parameter or node is touched.", 6)
    R = Rules(P, ck)

    def grad(w, t):
        x = tree(w)
        g1, g2, g3 = distinct("arr:g1"), distinct("arr:g2"), distinct("arr:g3")
        w.call(x["c"], "inc_grad", const("W"), g1)
        v = _unwrap(w.call(x["c"], "get_grad", const("W")))
        base, copied = strip(v)
        w.req(base is g1, "first", f"the first gradient is stored as {show(v)}")
        w.req(v is not g1 and copied, "own", "the first gradient is stored without a copy, so that the optimizer clears the caller's array")
        w.req(w.call(x["c"], "has_grad", const("W")) is TRUE, "has", "has_grad is not true after a gradient was added")
        w.call(x["c"], "inc_grad", const("W"), g2)
        v2 = _unwrap(w.call(x["c"], "get_grad", const("W")))
        lv = leaves(w.it.freeze(v2))
        w.req(g1 in lv and g2 in lv and isinstance(v2, Term) and v2.op in ("iop", "bin") and str(v2.args[0]) in ("Add", "+"), "accumulates", f"the second gradient is not added to the first (the gradient is now {show(v2)})")
        w.call(x["c"], "inc_grad", const("b"), g3)
        w.req(strip(w.call(x["c"], "get_grad", const("b")))[0] is g3, "per name", "gradients of different parameters of a node are mixed")
        w.req(w.call(x["c"], "get_grad", const("W")) is v2, "other name", "adding a gradient changes the gradient of another parameter")
        w.req(w.call(x["s"], "has_grad", const("W")) in (FALSE, NONE), "other node", "adding a gradient gives another node a gradient")
        w.req(w.call(x["c"], "get_param", const("W")) is distinct("arr:Wc"), "param", "adding a gradient changes the parameter")
        w.req(w.names(w.get(x["c"], "grad_names")) == ["W", "b"], "names", "grad_names does not list exactly the parameters with a gradient")
        w.call(x["c"], "set_grad", const("W"), g3)
        w.req(w.call(x["c"], "get_grad", const("W")) is g3, "set", "set_grad does not replace the gradient")
        w.req(w.call(x["s"], "get_param", const("W")) is distinct("arr:Ws"), "node param", "adding a gradient changes another node")
        n = w.model("fresh", params=D(W=distinct("arr:n")))
        w.req(w.call(n, "has_grad", const("W")) in (FALSE, NONE), "fresh", "a new node starts with a gradient of another one")
    R.scenario("grad", "thinc.model", "Model.inc_grad", "accumulate", grad, Calls)

    def ps(w, t):
        # two servers created without arguments share nothing
        cls = w.it.from_res(P.resolve("thinc.backends._param_server", "ParamServer"), P.modules["thinc.backends._param_server"], "ParamServer")
        mk_ = lambda: w.it.call(cls, [], [], w.node)
        a, b = mk_(), mk_()
        w.call(a, "set_param", const(1), const("W"), distinct("arr:1"))
        w.call(a, "inc_grad", const(1), const("W"), distinct("arr:g"))
        w.req(w.call(b, "has_param", const(1), const("W")) is FALSE and w.call(b, "has_grad", const(1), const("W")) is FALSE, "servers", "two parameter servers share their parameters or gradients")
        w.req(w.call(a, "has_param", const(2), const("W")) is FALSE and w.call(a, "has_param", const(1), const("b")) is FALSE, "key", "a parameter server finds a parameter under another key")
        w.req(R.raises(w, lambda: w.call(a, "get_param", const(2), const("W"))) == "KeyError", "get", "a parameter server returns a parameter that was never set")
    R.scenario("grad", "thinc.backends._param_server", "ParamServer.inc_grad", "servers", ps, Calls)

    def proxy(w, t):
        cls = w.it.from_res(P.resolve("thinc.backends._param_server", "ParamServer"), P.modules["thinc.backends._param_server"], "ParamServer")
        a = w.it.call(cls, [], [("proxy", distinct("shim:proxy"))], w.node)
        w.call(a, "set_param", const(1), const("W"), distinct("arr:1"))
        w.call(a, "inc_grad", const(1), const("W"), distinct("arr:g"))
        w.call(a, "set_grad", const(1), const("W"), distinct("arr:h"))
        v = w.call(a, "get_param", const(1), const("W"))
        log = [(c[1], list(c[2])) for c in w.it.hooks.log]
        for n, val in (("set_param", "arr:1"), ("inc_grad", "arr:g"), ("set_grad", "arr:h")):
            w.req((n, [const(1), const("W"), distinct(val)]) in log, f"proxy {n}", f"{n} does not reach the proxy with the node id, name and value")
        w.req(isinstance(v, Term) and v.op == "call" and "get_param" in str(v), "proxy get_param", "get_param does not return the value of the proxy")
    R.scenario("grad", "thinc.backends._param_server", "ParamServer.set_param", "remote parameters", proxy, Calls)


def rule_ids(P, ck):
    ck.rule("id", "Every model and every shim gets an id no other one has, whatever class or thread creates it: the counter of the base class is "
            "advanced and read in one critical section of its lock.", 4)
    R = Rules(P, ck)

    def critical(mod, clsname, make):
        def body(w, t):
            it = w.it
            mark = len(it.events)
            it.watch = ("global_id",)
            a = make(w)
            it.watch = ()
            acc = [e for e in it.events[mark:] if e.kind in ("setcls", "getcls") and e.data["name"] == "global_id"]
            w.req(all(e.data["held"] for e in acc), "lock for every access", f"the id counter is used without holding its lock while a {clsname} is created")
            w.req(len({e.data["section"] for e in acc}) == 1, "one section", f"the id counter is advanced and read in different critical sections while a {clsname} is created")
            evs = [e for e in it.events[mark:] if e.kind == "setcls" and e.data["name"] == "global_id"]
            w.req(len(evs) == 1, "advance", f"creating a {clsname} advances the id counter {len(evs)} times")
            for e in evs:
                w.req(bool(e.data["held"]), "lock", "the id counter is advanced without holding its lock", e.node)
            assigns = [e for e in it.events[mark:] if e.kind == "set_attr" and e.data.get("name") == "id"]
            ids = [w.get(a, "id")]
            for _ in range(3):
                ids.append(w.get(make(w), "id"))
            w.req(all(is_const(i) for i in ids) and len({cval(i) for i in ids}) == len(ids), "unique", f"two {clsname} objects get the same id: {[show(i) for i in ids]}")
            w.req(not it.held, "released", "the id lock is not released")
        return body

    def mkmodel(w):
        return _unwrap(w.model("m"))
    R.scenario("id", "thinc.model", "Model.__init__", "ids", critical("thinc.model", "Model", mkmodel), Calls)

    shims = [(m, c) for m in P.modules.values() for c in m.defs.values() if isinstance(c, ast.ClassDef)
             and any(k.name == "Shim" for _, k in P.mro(m, c)[0])]

    def mkshim(mod, name):
        m = P.modules[mod]

        def make(w):
            base = P.modules["thinc.shims.shim"]
            o = Obj("inst", ("cls", m, m.defs[name]))
            init = [n for n in base.defs["Shim"].body if getattr(n, "name", "") == "__init__"][0]
            w.it.call(Func(init, base, None, bound=o, cls=(base, base.defs["Shim"])), [distinct("net")], [], w.node)
            return o
        return make
    R.scenario("id", "thinc.shims.shim", "Shim.__init__", "ids", critical("thinc.shims.shim", "Shim", mkshim("thinc.shims.shim", "Shim")), Calls)

    def subclasses(w, t):
        it = w.it
        # a subclass of Model draws from the same counter
        fake = ast.ClassDef(name="Sub", bases=[ast.Name(id="Model", ctx=ast.Load())], keywords=[], body=[ast.Pass()], decorator_list=[])
        ast.fix_missing_locations(fake)
        fake._mod = w.M
        sub = lambda: it.call(Class(w.M, fake), [const("x"), distinct("fwd")], [("ops", distinct("ops"))], w.node)
        ids = [w.get(w.model("a"), "id"), w.get(sub(), "id"), w.get(w.model("b"), "id"), w.get(sub(), "id")]
        w.req(all(is_const(i) for i in ids) and len({cval(i) for i in ids}) == 4, "subclass", f"models of a subclass share ids with other models: {[show(i) for i in ids]}")
    R.scenario("id", "thinc.model", "Model.__init__", "ids of subclasses", subclasses, Calls)

    def shimsub(w, t):
        made = []
        for m, c in shims:
            made.append(w.get(mkshim(m.name, c.name)(w), "id"))
        w.req(len(made) >= 2 and all(is_const(i) for i in made) and len({cval(i) for i in made}) == len(made), "subclass", f"shims of different classes share ids: {[show(i) for i in made]}")
    R.scenario("id", "thinc.shims.shim", "Shim.__init__", "ids of subclasses", shimsub, Calls)

    # the lock belongs to the class, not to an instance or a call
    for mod, cname in (("thinc.model", "Model"), ("thinc.shims.shim", "Shim")):
        m = P.modules[mod]
        ck.anchor = f"{m.rel}:{cname}"
        for f in ast.walk(m.defs[cname]):
            if isinstance(f, ast.With):
                for i in f.items:
                    if any(isinstance(x, ast.Attribute) and x.attr == "global_id" for s in f.body for x in ast.walk(s)):
                        ck.instance("id", f"{cname}: lock object")
                        e = i.context_expr
                        if isinstance(e, ast.Call):
                            ck.finding("id", f, f"the id counter of {cname} is protected by a lock made for this one call", cname, key=f"{cname} lock")
        ck.anchor = None
        # other writers of the counter
        for mm in P.modules.values():
            for n in ast.walk(mm.tree):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
                for tt in ts:
                    if isinstance(tt, ast.Attribute) and tt.attr == "global_id":
                        ck.instance("id", f"write of global_id in {mm.name}")


def rule_operators(P, ck):
    ck.rule("operator", "Each overloaded operator of Model calls the function bound to its own symbol with both operands in order and returns its "
            "result; an unbound operator raises TypeError.", 12)
    R = Rules(P, ck)
    TABLE = {"__add__": "+", "__sub__": "-", "__mul__": "*", "__matmul__": "@", "__div__": "/", "__truediv__": "/", "__floordiv__": "//", "__mod__": "%",
             "__pow__": "**", "__lshift__": "<<", "__rshift__": ">>", "__and__": "&", "__xor__": "^", "__or__": "|"}
    have = [n.name for n in P.modules["thinc.model"].defs["Model"].body if isinstance(n, ast.FunctionDef) and n.name in TABLE]

    def body(name):
        def go(w, t):
            a, b = w.model("a"), w.model("b")
            d = D()
            d.items = [(const(s), distinct("fn:" + s)) for s in sorted(set(TABLE.values()))]
            C = Class(w.M, w.M.defs["Model"])
            args = [b] + ([] if name != "__pow__" else [])

            def inside(_):
                before = strkeys({**w.deep(a), **w.deep(b)})
                n0 = len(w.it.hooks.log)
                r = w.call(a, name, b)
                c = w.it.hooks.log[n0:]
                w.req(len(c) == 1 and c[0][0] == "fn:" + TABLE[name], "symbol", f"{name} calls the function bound to {[x[0][3:] for x in c]} instead of {TABLE[name]!r}")
                w.req(len(c) == 1 and list(c[0][1]) == [a, b] and not c[0][2], "operands", f"{name} does not pass its operands in order")
                w.req(isinstance(r, Term) and r.op == "call" and "fn:" + TABLE[name] in fmt(r), "result", f"{name} does not return the result of the function")
                w.req(diff(before, strkeys({**w.deep(a), **w.deep(b)})) is None, "pure", f"{name} changes its operands")
            scope(w, w.it.call(w.it.getattr(C, "define_operators", w.node), [d], [], w.node), inside)
            d2 = D()
            d2.items = [(k, v) for k, v in d.items if cval(k) != TABLE[name]]
            scope(w, w.it.call(w.it.getattr(C, "define_operators", w.node), [d2], [], w.node),
                  lambda _: w.req(R.raises(w, lambda: w.call(a, name, b)) == "TypeError", "undefined", f"{name} does not raise TypeError when {TABLE[name]!r} is not bound"))
        return go
    for n in have:
        R.scenario("operator", "thinc.model", f"Model.{n}", "dispatch", body(n), Calls)


def rule_sharing(P, ck):
    ck.rule("no-sharing", "Nothing mutable is shared behind the caller's back: a constructor copies the collections it is given, objects created with "
            "default arguments share none of them, and no function modifies, stores or returns a mutable default argument.", 20)
    R = Rules(P, ck)

    def model(w, t):
        child, sh = w.model("child"), distinct("shim:1")
        given = {"dims": D(nO=const(3)), "params": D(W=NONE), "layers": L(child), "shims": L(sh), "attrs": D(k=distinct("v")), "refs": D(r=child)}
        m = w.model("node", **given)
        sizes = {k: len(v.items) for k, v in given.items()}
        w.call(m, "set_dim", const("nO"), const(3))
        w.it.setitem(w.get(m, "attrs"), const("new"), distinct("x"), w.node)
        w.call(w.get(m, "layers"), "append", w.model("more"))
        w.call(w.get(m, "shims"), "append", distinct("shim:2"))
        w.call(m, "set_ref", const("r2"), child)
        w.call(m, "set_param", const("b"), distinct("arr:b"))
        for k, v in given.items():
            w.req(len(v.items) == sizes[k], f"given {k}", f"changing the model changes the {k} given to its constructor")
        for k, v in given.items():
            before = strkeys(w.deep(m))
            if v.kind == "list":
                v.items.append(w.model("sneaked") if k == "layers" else distinct("shim:sneaked"))
            else:
                v.items.append((const("sneaked"), NONE))
            d = diff(before, strkeys(w.deep(m)))
            w.req(d is None, f"kept {k}", f"changing the {k} given to the constructor changes the model: {d}")
        a, b = w.model("a"), w.model("b")
        before = strkeys(w.deep(b))
        w.it.setitem(w.get(a, "attrs"), const("new"), distinct("x"), w.node)
        w.call(w.get(a, "layers"), "append", w.model("more"))
        w.call(w.get(a, "shims"), "append", distinct("shim:2"))
        w.call(a, "set_ref", const("r2"), a)
        w.call(a, "set_param", const("b"), distinct("arr:b"))
        w.call(a, "inc_grad", const("b"), distinct("arr:gb"))
        d = diff(before, strkeys(w.deep(b)))
        w.req(d is None, "siblings", f"changing a model changes one created independently: {d}")
        c = w.model("c")
        w.req(not w.names(w.get(c, "dim_names")) and not w.names(w.get(c, "param_names")) and not w.names(w.get(c, "ref_names")) and not w.mapping(w.get(c, "attrs"))
              and not w.seq(w.get(c, "layers")) and not w.seq(w.get(c, "shims")), "defaults", "a model created with default arguments is not empty after others were changed")
    R.scenario("no-sharing", "thinc.model", "Model.__init__", "collections", model, Calls)

    def shim(w, t):
        m = P.modules["thinc.shims.shim"]
        cfg = D(k=distinct("v"))
        make = lambda **k: _unwrap(w.it.call(Class(m, m.defs["Shim"]), [distinct("net")], list(k.items()), w.node))
        a, b, c = make(config=cfg), make(), make()
        w.it.setitem(w.get(a, "cfg"), const("new"), distinct("x"), w.node)
        w.it.setitem(w.get(b, "cfg"), const("new"), distinct("x"), w.node)
        w.req(len(cfg.items) == 1, "cfg", "changing the configuration of a shim changes the dictionary given to its constructor")
        w.req(not w.mapping(w.get(c, "cfg")), "cfg default", "shims created without configuration share one")
    R.scenario("no-sharing", "thinc.shims.shim", "Shim.__init__", "configuration", shim, Calls)

    # mutable defaults in the whole package
    from .mutdefaults import check
    check(P, ck, "no-sharing")
