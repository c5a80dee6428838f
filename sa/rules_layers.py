"""Rules about layers: constructor -> forward -> backprop traces."""
import ast

from .flow import Flow, META_ATTRS, short, ALLOCS
from .interp import (Term, Obj, Func, Partial, Class, Builtin, NONE, TRUE, FALSE, is_const, cval, mk, const, fmt, _unwrap, Stop,
                     Budget, explore, Interp, reset)
from .layers import Layers, LayerTrace, ModelHooks, _fn_node
from .project import where, qualname
from .report import Incomplete

_cache = {}


def all_traces(P, ck, nvars=(2,)):
    """[(module, ctor, registered name, [LayerTrace])] for every constructor."""
    key = id(P)
    if key in _cache:
        return _cache[key]
    L = Layers(P)
    limit = 1500 if ck.tier == "quick" else 6000
    out = []
    for m, fn, reg in L.constructors():
        nv = (1, 2, 3) if fn.args.vararg is not None or "Sequence[Model" in ast.unparse(fn.args) else (2,)
        ts = []
        for n in nv:
            got = L.traces(m, fn, nvar=n, limit=limit)
            for t in got:
                t.nvar = n
            ts += got
        out.append((m, fn, reg, ts))
    _cache[key] = (L, out)
    L._allcs = out
    return _cache[key]


def good(ts):
    return [t for t in ts if t.stopped is None and t.failed is None]


class View:
    """A completed trace with the queries the rules share."""

    def __init__(self, t):
        self.t = t
        self.f = Flow(t)
        self.children = [e for e in t.events if e.kind == "child" and e.phase == "forward"]
        self.cbs = [e for e in t.events if e.kind == "cb" and e.phase == "backprop"]
        self.incs = [e for e in t.events if e.kind == "inc_grad" and e.phase == "backprop"]
        self.X, self.dY = t.X, t.dY
        self._d = {}

    def deps(self, v):
        v = self.t.freeze(v)
        if v not in self._d:
            self._d[v] = self.f.deps(v)
        return self._d[v]

    def subterms(self, v):
        v = self.t.freeze(v)
        out, todo = set(), [v]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo += list(x)
            elif isinstance(x, Term):
                if x in out:
                    continue
                out.add(x)
                if x.op == "pyobj":
                    todo.append(self.t.freeze(x.args[0].v))
                    continue
                todo += [a for a in x.args if isinstance(a, (Term, tuple))]
                todo += self.f.stores.get(x, [])
        return out

    def cb_of(self, n):
        return [c for c in self.cbs if c.data["n"] == n]

    def path(self):
        return "; ".join(("" if d else "not ") + fmt(c) for d, c, _ in self.t.taken)[:300]


def views(t):
    v = getattr(t, "_view", None)
    if v is None:
        v = t._view = View(t)
    return v


def structure_key(t):
    """Traces with the same forward and backward behaviour are the same instance."""
    return (id(t.fwd_node), id(getattr(t, "bp_node", None)))


# ------------------------------------------------------------------ is_train
def rule_is_train(P, ck):
    ck.rule("is-train", "Every child a layer runs in its forward pass receives, as is_train, the flag the layer itself received.", 15)
    L, cs = all_traces(P, ck)
    for m, fn, reg, ts in cs:
        ck.anchor = f"{m.rel}:{fn.name}"
        for t in good(ts):
            v = views(t)
            for c in v.children:
                ck.instance("is-train", f"{where(c.node)} {c.func()}")
                it = c.data["is_train"]
                ft = t.freeze(it) if it is not None else None
                if ft is t.is_train:
                    continue
                if it is not None and is_const(ft) and t.it.facts.get(t.is_train) is bool(cval(ft)):
                    continue
                ck.finding("is-train", c.node, f"child runs with is_train={fmt(ft) if ft is not None else 'missing'}, not the flag of the call",
                           c.func(), key="child")


# ---------------------------------------------------------------- callbacks
def rule_callbacks(P, ck):
    ck.rule("callback-once", "On every path of the backward pass, the callback of each child run in the forward pass is called exactly once.", 15)
    L, cs = all_traces(P, ck)
    for m, fn, reg, ts in cs:
        ck.anchor = f"{m.rel}:{fn.name}"
        for t in good(ts):
            v = views(t)
            for c in v.children:
                n = c.data["n"]
                k = len(v.cb_of(n))
                ck.instance("callback-once", f"{where(c.node)} {c.func()}")
                if k == 1:
                    continue
                if k == 0 and _discarded(v, n):
                    continue
                ck.finding("callback-once", c.node, f"the callback of this child is called {k} times in the backward pass [{v.path()}]",
                           c.func(), key=f"n{min(k, 2)}")


def _discarded(v, n):
    """The child's output does not reach the output at all."""
    return False


# ------------------------------------------------------------------ adjoint
def grads(v):
    """leaf -> [gradient terms]"""
    t = v.t
    g = {t.X: [t.dX]}
    for c in v.children:
        g[mk("childout", c.data["n"])] = [e.data["arg"] for e in v.cb_of(c.data["n"])]
    for e in v.incs:
        p = mk("param", e.data["model"].id, t.freeze(e.data["name"])) if isinstance(e.data["model"], Obj) else None
        g.setdefault(p, []).append(e.data["value"])
    return g


def rule_adjoint(P, ck):
    ck.rule("adjoint", "If the input, a child's output or a parameter flows into the output (or into another child's input), then the "
            "gradient of that destination flows into the gradient of the source, and only then.", 40)
    ck.rule("cofactor", "Where the forward pass multiplies two values, the gradient of each one depends on the other (saved) value; "
            "a random mask is reused, not drawn again.", 10)
    L, cs = all_traces(P, ck)
    for m, fn, reg, ts in cs:
        ck.anchor = f"{m.rel}:{fn.name}"
        for t in good(ts):
            v = views(t)
            if empty_input(v):
                continue
            adjoint_trace(ck, v, fn)
            cofactor_trace(ck, v, fn)


PRODUCTS = {"gemm", "matmul", "dot", "multiply", "affine", "outer", "einsum"}


def products(v, term):
    """(factor, factor, node term) for every product inside a value."""
    for x in v.subterms(term):
        if x.op in ("bin", "iop") and x.args[0] in ("Mult", "MatMult"):
            yield x.args[1], x.args[2], x
        elif x.op == "call" and short(x.args[0]) in PRODUCTS:
            a = [y for y in x.args[1] if isinstance(y, Term) and y.op != "const"]
            if len(a) >= 2:
                yield a[0], a[1], x


def randoms(v, term):
    return {x for x in v.subterms(term) if x.op == "call" and (short(x.args[0]) in ("get_dropout_mask",) or str(x.args[0]).startswith("xp.random"))}


def cofactor_trace(ck, v, fn):
    t = v.t
    g = grads(v)
    bp = getattr(t, "bp_node", None) or t.fwd_node
    dests = [t.Y] + [c.data["X"] for c in v.children]
    seen = set()
    leafs = {t.X: "the input"}
    for c in v.children:
        leafs[mk("childout", c.data["n"])] = f"the output of child {c.data['n']}"
    for dv in dests:
        for a, b, x in products(v, dv):
            if x in seen:
                continue
            seen.add(x)
            da, db = v.deps(a), v.deps(b)
            for mine, other, od in ((da, b, db), (db, a, da)):
                need_r = randoms(v, other)
                for leaf in mine:
                    if leaf not in leafs and leaf.op != "param":
                        continue
                    if leaf in od:
                        continue      # the leaf is on both sides
                    name = leafs.get(leaf) or f"parameter {fmt(leaf.args[1])}"
                    gs = g.get(leaf, [])
                    if not gs:
                        continue
                    if nondiff(v, dv, leaf):
                        continue
                    srcs = {t.dY} | {c.data["result"] for c in v.cbs}
                    if not any(v.deps(y) & srcs for y in gs):
                        continue      # reported by adjoint / param-grad
                    need = {d for d in od if d.op in ("sym", "param", "childout") and not str(d.args[0]).startswith("is_train")}
                    have = set()
                    for y in gs:
                        have |= v.deps(y)
                    ck.instance("cofactor", f"{fn.name}: {name} in {fmt(x)[:60]}")
                    miss = [d for d in need if d not in have and not str(d.args[0]).startswith("arg:")]
                    if miss:
                        ck.finding("cofactor", bp, f"{name} is multiplied by {fmt(other)[:60]} in the forward pass, but its gradient does not depend on "
                                   f"{', '.join(fmt(z) for z in miss)} [{v.path()}]", key=f"{name}*{','.join(sorted(_lab(z) for z in miss))}")
                    if need_r:
                        sub = set()
                        for y in gs:
                            sub |= v.subterms(y)
                        lost = [r for r in need_r if r not in sub]
                        if lost:
                            ck.finding("cofactor", bp, f"{name} is multiplied by the random mask {fmt(lost[0])[:60]} in the forward pass, but its gradient is not "
                                       f"multiplied by the same mask [{v.path()}]", key=f"{name}*mask")


def _lab(z):
    return fmt(z.args[1]) if z.op == "param" else fmt(z)


def empty_input(v):
    """The path is only taken for inputs without elements."""
    for c, val in v.t.it.facts.items():
        if val and isinstance(c, Term) and c.op == "cmp" and c.args[0] == "==":
            a, b = c.args[1], c.args[2]
            if a.op == "const":
                a, b = b, a
            if b is const(0) and sized(a):
                return True
        if not val and isinstance(c, Term) and sized(c):
            return True
        if not val and isinstance(c, Term) and c.op == "cmp" and c.args[0] == "<" and c.args[1] is const(0) and sized(c.args[2]):
            return True
    return False


def sized(a):
    return (a.op == "call" and a.args[0] == "len") or (a.op == "attr" and a.args[1] == "size") or (
        a.op == "sub" and isinstance(a.args[0], Term) and a.args[0].op == "attr" and a.args[0].args[1] == "shape")


def _has(v, val, leaf):
    return leaf in v.deps(val)


def adjoint_trace(ck, v, fn):
    t = v.t
    g = grads(v)
    bp = getattr(t, "bp_node", None) or t.fwd_node
    dests = [("the output", t.Y, t.dY, None)]
    for c in v.children:
        n = c.data["n"]
        cbs = v.cb_of(n)
        dests.append((f"the input of child {n}", c.data["X"], cbs[0].data["result"] if cbs else None, c))
    leaves = [(t.X, "the input")] + [(mk("childout", c.data["n"]), f"the output of child {c.data['n']}") for c in v.children]
    for leaf, lname in leaves:
        for dname, dv, dg, c in dests:
            if dg is None:
                continue
            flows = _has(v, dv, leaf)
            back = any(_has(v, x, dg) for x in g.get(leaf, []))
            ck.instance("adjoint", f"{fn.name}: {lname} -> {dname}")
            if flows and not back:
                if not g.get(leaf):
                    continue   # callback-once reports it
                if nondiff(v, dv, leaf):
                    continue
                ck.finding("adjoint", bp, f"{lname} flows into {dname}, but the gradient of {dname} does not reach the gradient of {lname} [{v.path()}]",
                           key=f"{lname}>{dname}")
            elif back and not flows:
                ck.finding("adjoint", bp, f"the gradient of {dname} reaches the gradient of {lname}, but {lname} does not flow into {dname} [{v.path()}]",
                           key=f"{lname}<{dname}")


def nondiff(v, dest, leaf):
    """The leaf reaches the destination only through a conversion function
    supplied by the user, whose adjoint is the user's."""
    def cut(x):
        return x.op == "call" and isinstance(x.args[0], Term) and (
            (x.args[0].op == "sym" and str(x.args[0].args[0]).startswith("arg:")))
    return leaf not in v.f.deps(v.t.freeze(dest), cut)


# -------------------------------------------------------------- parameters
def rule_params(P, ck):
    ck.rule("param-grad", "Every parameter the forward pass uses receives, on every path of the backward pass, exactly one gradient "
            "increment, computed from the incoming gradient.", 8)
    L, cs = all_traces(P, ck)
    for m, fn, reg, ts in cs:
        ck.anchor = f"{m.rel}:{fn.name}"
        for t in good(ts):
            v = views(t)
            params_trace(ck, v, fn)


def params_trace(ck, v, fn):
    t = v.t
    bp = getattr(t, "bp_node", None) or t.fwd_node
    used = {}
    outs = v.deps(t.Y)
    for c in v.children:
        outs = outs | v.deps(c.data["X"])
    for d in outs:
        if d.op == "param":
            used[d] = True
    got = {}
    for e in v.incs:
        if not isinstance(e.data["model"], Obj):
            continue
        p = mk("param", e.data["model"].id, t.freeze(e.data["name"]))
        got.setdefault(p, []).append(e)
    srcs = {t.dY} | {c.data["result"] for c in v.cbs}
    for p in set(used) | set(got):
        ck.instance("param-grad", f"{fn.name}: {fmt(p.args[1])}")
        es = got.get(p, [])
        if len(es) == 0:
            ck.finding("param-grad", bp, f"parameter {fmt(p.args[1])} is used in the forward pass but gets no gradient in the backward pass [{v.path()}]",
                       key=f"none {fmt(p.args[1])}")
        elif len(es) > 1:
            ck.finding("param-grad", es[1].node, f"the gradient of parameter {fmt(p.args[1])} is incremented {len(es)} times [{v.path()}]",
                       key=f"many {fmt(p.args[1])}")
        else:
            if empty_input(v):
                continue
            if not (v.deps(es[0].data["value"]) & srcs):
                ck.finding("param-grad", es[0].node, f"the gradient of parameter {fmt(p.args[1])} does not depend on the incoming gradient [{v.path()}]",
                           key=f"indep {fmt(p.args[1])}")
            if p not in used:
                ck.finding("param-grad", es[0].node, f"parameter {fmt(p.args[1])} gets a gradient but does not flow into the output [{v.path()}]",
                           key=f"unused {fmt(p.args[1])}")


# ------------------------------------------------------ forward/backward pairs
def rule_pairs(P, ck):
    ck.rule("op-pair", "A backward operation backprop_F is used on a path only if F was used in the forward pass of that path, and every "
            "argument the two share (saved input, saved output, settings) is the same value.", 15)
    ck.rule("inverse-pair", "Rearrangements of the batch are undone with the settings they were done with (padding, lengths).", 4)
    L, cs = all_traces(P, ck)
    sig = ops_signatures(P)
    ck.units["ops signatures"] = len(sig)
    for m, fn, reg, ts in cs:
        ck.anchor = f"{m.rel}:{fn.name}"
        for t in good(ts):
            pair_trace(ck, views(t), fn, sig)


def ops_signatures(P):
    out = {}
    m = P.modules.get("thinc.backends.ops")
    if m is None:
        raise Incomplete("thinc/backends/ops.py not found")
    cls = m.defs.get("Ops")
    if cls is None:
        raise Incomplete("class Ops not found")
    for st in cls.body:
        if isinstance(st, ast.FunctionDef):
            names = [a.arg for a in st.args.args][1:]
            dflt = dict(zip(names[len(names) - len(st.args.defaults):], st.args.defaults))
            for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults):
                names.append(a.arg)
                dflt[a.arg] = d
            out[st.name] = (names, dflt)
    return out


def bind_ops(sig, name, args, kw):
    names, dflt = sig[name]
    out = dict(zip(names, args))
    for k, v in kw:
        out[k] = v
    for k, d in dflt.items():
        if k not in out and isinstance(d, ast.Constant):
            out[k] = const(d.value)
        elif k not in out and isinstance(d, ast.UnaryOp):
            try:
                out[k] = const(ast.literal_eval(d))
            except Exception:
                pass
    return out


def same_value(v, a, b):
    """The same value, up to copies and layout."""
    a, b = strip(v, a), strip(v, b)
    if a is b:
        return True
    return v.f.roots(a) == v.f.roots(b) and len(v.f.roots(a)) == 1 and a.op not in ("sub",) and b.op not in ("sub",)


def strip(v, a):
    a = v.t.freeze(a)
    while a.op == "call" and short(a.args[0]) in ("as_contig", "asarray", "copy", "ascontiguousarray", "asarray1i", "asarray_i", "reshape",
                                                  "reshape2f", "reshape3f", "reshape1f", "reshape4f", "reshape_f") and a.args[1]:
        a = a.args[1][0]
    return a


IGNORE_SHARED = {"inplace", "out", "dtype"}


def pair_trace(ck, v, fn, sig):
    t = v.t
    fw, bw = {}, {}
    for e in t.events:
        if e.kind != "call" or not str(e.data["name"]).startswith("ops."):
            continue
        n = short(e.data["name"])
        (fw if e.phase == "forward" else bw if e.phase == "backprop" else {}).setdefault(n, []).append(e)
    for n, es in bw.items():
        if not n.startswith("backprop_"):
            continue
        f = n[len("backprop_"):]
        if n not in sig:
            continue
        for e in es:
            ck.instance("op-pair", f"{fn.name}: {n}")
            cands = fw.get(f) or fw.get(f + "_forward_training") or fw.get({"lstm": "lstm_forward_training"}.get(f, f))
            if not cands and (empty_input(v) or t.it.facts.get(t.is_train) is False):
                continue      # nothing to differentiate / not a training run
            if not cands:
                ck.finding("op-pair", e.node, f"{n} is applied in the backward pass, but {f} is not applied in the forward pass [{v.path()}]", key=n)
                continue
            if f not in sig:
                continue
            b = bind_ops(sig, n, e.data["args"], e.data["kw"])
            best = None
            for c in cands:
                a = bind_ops(sig, f, c.data["args"], c.data["kw"])
                bad = []
                for k in a:
                    if k in b and k not in IGNORE_SHARED:
                        if not same_value(v, a[k], b[k]) and not mutated(v, b[k]):
                            bad.append(f"{k}={fmt(t.freeze(b[k]))[:50]} instead of {fmt(t.freeze(a[k]))[:50]}")
                if "Y" in b and "Y" not in a:
                    r = c.data["result"]
                    if not same_value(v, r, b["Y"]) and r not in v.f.roots(t.freeze(b["Y"])) and not derived(v, b["Y"], r):
                        bad.append(f"Y={fmt(t.freeze(b['Y']))[:50]} instead of the output of {f}")
                if f == "maxout" and "which" in b:
                    if t.freeze(b["which"]) is not mk("sub", c.data["result"], const(1)):
                        bad.append("which is not the one maxout returned")
                if f == "reduce_max" and "which" in b:
                    if t.freeze(b["which"]) is not mk("sub", c.data["result"], const(1)):
                        bad.append("which is not the one reduce_max returned")
                if best is None or len(bad) < len(best):
                    best = bad
            for x in best:
                ck.finding("op-pair", e.node, f"{n} gets {x}, which {f} used in the forward pass [{v.path()}]", key=f"{n}|{x.split('=')[0]}")
    # flatten / unflatten / pad
    for fname, bname in (("flatten", "unflatten"), ("unflatten", "flatten")):
        for e in bw.get(bname, []):
            if fname not in fw:
                continue
            b = bind_ops(sig, bname, e.data["args"], e.data["kw"])
            pads = [bind_ops(sig, fname, c.data["args"], c.data["kw"]).get("pad") for c in fw[fname]]
            ck.instance("inverse-pair", f"{fn.name}: {bname} after {fname}")
            if not any(t.freeze(p) is t.freeze(b.get("pad")) for p in pads if p is not None):
                ck.finding("inverse-pair", e.node, f"{bname} in the backward pass uses pad={fmt(t.freeze(b.get('pad')))}, {fname} in the forward pass used "
                           f"pad={', '.join(fmt(t.freeze(p)) for p in pads)} [{v.path()}]", key=f"{bname} pad")
            if bname == "unflatten":
                xs = [t.freeze(bind_ops(sig, fname, c.data["args"], c.data["kw"]).get("X", NONE)) for c in fw[fname]]
                ln = t.freeze(b.get("lengths", NONE))
                ok = any(lengths_of(v, ln, x) for x in xs)
                if not ok:
                    ck.finding("inverse-pair", e.node, f"unflatten in the backward pass uses lengths {fmt(ln)[:60]}, which are not those of the values flattened "
                               f"in the forward pass [{v.path()}]", key="unflatten lengths")


def mutated(v, val):
    return False


def derived(v, y, r):
    """y is r up to masking or slicing applied afterwards."""
    return r in v.subterms(y)


def lengths_of(v, ln, x):
    """ln is the array of the lengths of the items of x (or was kept with it)."""
    st = v.subterms(ln)
    for s in st:
        if s.op == "call" and s.args[0] == "len":
            a = s.args[1][0]
            if a.op == "sub" and a.args[0] is x:
                return True
            if x in v.subterms(a) or any(a is y for y in v.subterms(x)):
                return True
        if s.op == "attr" and s.args[1] in ("lengths",):
            return True
        if s.op == "sub" and isinstance(s.args[0], Term) and s.args[0].op == "attr" and s.args[0].args[1] == "shape":
            if x in v.subterms(s) or any(z in v.subterms(x) for z in [s.args[0].args[0]]):
                return True
    return False


# ---------------------------------------------------------------- mutation
def rule_mutation(P, ck):
    ck.rule("no-mutation", "No array that the caller, a child layer or the parameter store owns, and in the backward pass no array or "
            "list kept by the forward pass, is written to.", 20)
    L, cs = all_traces(P, ck)
    for m, fn, reg, ts in cs:
        ck.anchor = f"{m.rel}:{fn.name}"
        for t in good(ts):
            mutation_trace(ck, views(t), fn)


def mutation_trace(ck, v, fn):
    t = v.t
    mark = getattr(t, "obj_mark", None)
    fwd = set()
    for e in t.events:
        if e.phase in ("ctor", "forward") and e.kind == "call":
            fwd.add(e.data["result"])
        if e.phase == "forward" and e.kind == "mutate" and isinstance(e.data["target"], Term):
            fwd |= v.f.roots(e.data["target"])
    yroots = v.f.roots(t.Y)
    for e in t.events:
        if e.phase not in ("forward", "backprop"):
            continue
        if e.kind == "mutate":
            tgt = t.freeze(e.data["target"])
            ck.instance("no-mutation", f"{where(e.node)} {e.func()}")
            for r in v.f.roots(tgt):
                who = None
                if r is t.X:
                    who = "the input"
                elif r is t.dY:
                    who = "the incoming gradient"
                elif r.op == "param":
                    who = f"parameter {fmt(r.args[1])}"
                elif r.op == "childout":
                    who = "the output of a child layer"
                elif r.op == "cbout":
                    who = "the gradient returned by a child layer"
                elif r.op in ("glob", "model") or (r.op == "sym" and str(r.args[0]).startswith("arg:")):
                    who = f"{fmt(r)}, which outlives the call"
                elif r.op == "attr" and isinstance(r.args[0], Term) and r.args[0].op == "model":
                    who = f"{fmt(r)}, which outlives the call"
                elif e.phase == "backprop" and (r in fwd or r in yroots):
                    who = "a value kept from the forward pass"
                if who:
                    ck.finding("no-mutation", e.node, f"{e.data['how']} writes to {who} ({fmt(tgt)[:80]}) in the {e.phase} pass [{v.path()}]",
                               e.func(), key=f"{who.split(' (')[0]}|{e.phase}")
        elif e.kind == "mutate_obj":
            o = e.data["target"]
            ck.instance("no-mutation", f"{where(e.node)} {e.func()}")
            if e.phase == "backprop" and mark is not None and o.id <= mark:
                ck.finding("no-mutation", e.node, f"{e.data['how']} changes a {o.kind} kept from the forward pass, so the callback cannot run twice [{v.path()}]",
                           e.func(), key="kept object")


# ------------------------------------------------------------------- state
STATE = {"set_param", "set_dim", "set_ref", "set_grad"}


def rule_state(P, ck):
    ck.rule("pure-forward", "A forward pass changes no parameter, gradient, dimension, reference, attribute or child list of a model and "
            "no module-level state; a backward pass changes nothing but gradients, by accumulation.", 40)
    L, cs = all_traces(P, ck)
    for m, fn, reg, ts in cs:
        ck.anchor = f"{m.rel}:{fn.name}"
        for t in good(ts):
            state_trace(ck, views(t), fn)


def state_trace(ck, v, fn):
    t = v.t
    ck.instance("pure-forward", f"{fn.name}: {qualname(t.fwd_node) if t.fwd_node is not None else '?'}")
    owned = set()
    for o in [x for x in t.models_objs()]:
        for k, val in o.fields.items():
            if isinstance(val, Obj):
                owned.add(val.id)
    for e in t.events:
        if e.phase not in ("forward", "backprop"):
            continue
        bad = None
        if e.kind in STATE:
            bad = f"{e.kind}({fmt(t.freeze(e.data['name']))})"
        elif e.kind == "inc_grad" and e.phase == "forward":
            bad = f"inc_grad({fmt(t.freeze(e.data['name']))})"
        elif e.kind == "setattr":
            tgt = e.data["target"]
            if isinstance(tgt, Obj) and tgt.cls and tgt.cls[0] == "model":
                bad = f"assignment to model attribute {e.data['name']}"
            elif isinstance(tgt, Term) and tgt.op in ("model", "glob", "class"):
                bad = f"assignment to attribute {e.data['name']} of {fmt(tgt)}"
        elif e.kind == "mutate_obj" and e.data["target"].id in owned:
            bad = f"{e.data['how']} on a list or dict of the model"
        elif e.kind == "mutate":
            tgt = t.freeze(e.data["target"])
            for r in v.f.roots(tgt):
                if r.op in ("glob", "model") or (r.op == "attr" and isinstance(r.args[0], Term) and r.args[0].op == "model"):
                    bad = f"{e.data['how']} on {fmt(tgt)}"
        elif e.kind == "set_global":
            bad = f"assignment to global {e.data['name']}"
        elif e.kind == "set_nonlocal":
            pass
        elif e.kind == "modelcall" and e.data["name"] in ("initialize", "remove_node", "replace_node", "from_bytes", "from_dict", "from_disk",
                                                          "set_child_attrs", "finish_update", "to_gpu", "to_cpu"):
            bad = f"call of {e.data['name']}"
        elif e.kind == "initialize":
            bad = "initialize of a child"
        if bad:
            ck.finding("pure-forward", e.node, f"{bad} in the {e.phase} pass [{v.path()}]", e.func(), key=f"{bad.split('(')[0]}|{e.phase}")
