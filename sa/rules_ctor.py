"""Rules about constructors, initialisation and containers of layers."""
import ast

from .flow import short
from .interp import (Term, Obj, Func, Partial, Class, Builtin, NONE, TRUE, FALSE, is_const, cval, mk, const, fmt, _unwrap, Stop,
                     Budget, explore, Interp)
from .layers import Layers, LayerTrace, ModelHooks, _fn_node, _full
from .project import where, qualname
from .report import Incomplete
from .rules_layers import all_traces, good, views, View, empty_input


# ------------------------------------------------------------- reachability
def reach_values(t, vals, depth=0):
    """Every term reachable from values, through objects, closures and partials."""
    out = set()
    seen = set()
    todo = list(vals)
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, list)):
            todo += list(x)
            continue
        if isinstance(x, Term):
            if x in out:
                continue
            out.add(x)
            if x.op == "pyobj":
                todo.append(x.args[0].v)
            elif x.op == "funcref":
                todo.append(x.args[2].v)
            elif x.op == "model":
                pass
            for a in x.args:
                if isinstance(a, (Term, tuple)):
                    todo.append(a)
            continue
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, Obj):
            out.add(mk("model", x.id))
            todo += list(x.items) if x.kind != "dict" else [y for kv in x.items for y in kv]
            todo += list(x.fields.values())
        elif isinstance(x, Func):
            if x.bound is not None:
                todo.append(x.bound)
            fr = x.frame
            names = _free(x.node)
            while fr is not None:
                todo += [v for k, v in fr.vars.items() if k in names]
                fr = fr.parent
        elif isinstance(x, Partial):
            todo.append(x.fn)
            todo += list(x.args) + [v for _, v in x.kw]
        elif isinstance(x, Builtin) and x.recv is not None:
            todo.append(x.recv)
    return out


def _free(node):
    s = getattr(node, "_freenames", None)
    if s is None:
        s = node._freenames = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}
    return s


def arg_terms(it, fn):
    """arg name -> the term or objects that stand for it."""
    out = {}
    args, kw = it.ctor_args
    a = fn.args
    for x, v in zip(a.args, args):
        out[x.arg] = [v]
    if a.vararg is not None:
        out[a.vararg.arg] = args[len(a.args):]
    for k, v in kw:
        out[k] = [v]
    return out


DEPRECATED = ()


def rule_options(P, ck):
    ck.rule("option-used", "Every argument of a layer constructor influences the model that is built (its structure, settings, closures or the choice between them).", 120)
    ck.rule("option-effective", "Every argument stored in a model influences its initialisation, forward or backward pass.", 60)
    ck.rule("option-name", "A setting, dimension or initializer of a model that is named like a constructor argument is computed from that argument.", 60)
    L, cs = all_traces(P, ck)
    for m, fn, reg, ts in cs:
        ck.anchor = f"{m.rel}:{fn.name}"
        paths = []
        for nv in (1, 2, 3):
            paths += L.ctor_paths.get((m.name, fn.name, nv), [])
        ok = [t for t in paths if t.stopped in (None, "no model", "returns argument") and not t.failed]
        names = [x.arg for x in list(fn.args.args) + list(fn.args.kwonlyargs)] + ([fn.args.vararg.arg] if fn.args.vararg else [])
        if not ok or not names:
            continue
        used = {n: False for n in names}
        for t in ok:
            at = arg_terms(t.it, fn)
            conds = [c for _, c, _ in t.taken if not (isinstance(c, Term) and c.op == "cmp" and c.args[0] == "is" and NONE in c.args)]
            vals = [t.model] + conds + [e.data.get("args") for e in t.events if e.kind == "construct"]
            vals += [e.data.get("kw") for e in t.events if e.kind in ("construct",)]
            vals += [e.data.get("value") for e in t.events if e.kind in ("set_dim", "set_param", "set_ref")]
            rs = reach_values(t, [v for v in vals if v is not None])
            for n, vs in at.items():
                for v in vs:
                    f = mk("model", v.id) if isinstance(v, Obj) and v.cls and v.cls[0] == "model" else t.freeze(v)
                    if f in rs or (f is NONE and any(True for c in conds if f"arg:{n}" in fmt(c))):
                        used[n] = True
                    if isinstance(v, Term) and v.op == "tuple" or isinstance(v, Obj) and v.kind == "list":
                        for y in (v.args if isinstance(v, Term) else v.items):
                            y = _unwrap(y)
                            g = mk("model", y.id) if isinstance(y, Obj) else y
                            if g in rs:
                                used[n] = True
        for n in names:
            if not any(n in arg_terms(t.it, fn) for t in ok):
                continue
            ck.instance("option-used", f"{fn.name}({n})")
            if not used[n]:
                ck.finding("option-used", fn, f"the argument {n} has no influence on the model that is built", fn.name, key=n)
        option_names(ck, L, m, fn, ok)
    ck.anchor = None


def rule_effective(P, ck):
    """An argument stored in a model is read by some pass."""
    L, cs = all_init(P, ck)
    L2, fcs = all_traces(P, ck)
    fwd = {fn: ts for _, fn, _, ts in fcs}
    for m, fn, reg, its in cs:
        ck.anchor = f"{m.rel}:{fn.name}"
        names = [x.arg for x in list(fn.args.args) + list(fn.args.kwonlyargs)]
        ts = [t for t in list(fwd.get(fn, [])) + list(its) if isinstance(getattr(t, "model", None), Obj) and "attrs" in t.model.fields]
        if not ts:
            continue
        stored = set()
        used = set()
        for t in ts:
            o = t.model
            rs = reach_values(t, [o.fields["attrs"], o.fields["forward"], o.fields["init"]])
            vals = [getattr(t, "Y", None), getattr(t, "dX", None), getattr(t, "result", None)]
            vals += [c for _, c, _ in t.taken[getattr(t, "ctor_taken", 0):]]
            for e in t.events:
                if e.phase != "ctor":
                    vals += [x for k, x in e.data.items() if k not in ("model", "child", "target", "cls")]
            us = reach_values(t, [x for x in vals if x is not None])
            for n in names:
                a = mk("sym", "arg:" + n)
                if a in rs:
                    stored.add(n)
                if a in us or any(a in reach_values(t, [c]) for c in [c for _, c, _ in t.taken]):
                    used.add(n)
        for n in sorted(stored):
            ck.instance("option-effective", f"{fn.name}({n})")
            if n not in used and not read_elsewhere(m, ts, n):
                ck.finding("option-effective", fn, f"the argument {n} is stored in the model but never influences its initialisation, forward or backward pass", fn.name, key=n)
    ck.anchor = None


def read_elsewhere(m, ts, n):
    """Is the attribute that holds argument n read by a helper of the module?"""
    a = mk("sym", "arg:" + n)
    keys = set()
    for t in ts:
        d = t.model.fields["attrs"]
        if isinstance(d, Obj):
            keys |= {cval(k) for k, v in d.items if is_const(k) and a in reach_values(t, [v])}
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Attribute) and x.value.attr == "attrs" \
                and isinstance(x.slice, ast.Constant) and x.slice.value in keys:
            return True
    return False


def option_names(ck, L, m, fn, ok):
    names = {x.arg for x in list(fn.args.args) + list(fn.args.kwonlyargs)}
    for t in ok:
        if t.stopped is not None:
            continue
        at = arg_terms(t.it, fn)
        mods = [e.data["model"] for e in t.events if e.kind == "model"]
        # only the models this constructor builds itself
        mods = [o for o in mods if _in(o.node, fn)]
        for o in mods:
            for field in ("dims", "attrs", "refs"):
                d = o.fields[field]
                if not isinstance(d, Obj):
                    continue
                for k, v in d.items:
                    if not is_const(k) or cval(k) not in names:
                        continue
                    n = cval(k)
                    ck.instance("option-name", f"{fn.name}: {field}[{n}]")
                    a = at[n][0]
                    if isinstance(a, Obj):
                        if v is not a and mk("model", a.id) not in reach_values(t, [v]):
                            ck.finding("option-name", o.node, f"{field}[{n!r}] does not hold the argument {n}", fn.name, key=f"{field}.{n}")
                        continue
                    rs = reach_values(t, [v])
                    fz = t.freeze(v)
                    known = {c for c in t.it.facts}
                    if a in rs or (fz.op == "const" and any(a in reach_values(t, [c]) for c in known)):
                        continue
                    if any(a in reach_values(t, [c]) for c in known):
                        continue     # chosen by a condition on the argument
                    ck.finding("option-name", o.node, f"{field}[{n!r}] is {fmt(fz)[:60]}, not computed from the argument {n}", fn.name, key=f"{field}.{n}")


def _in(node, fn):
    n = node
    while n is not None:
        if n is fn:
            return True
        n = getattr(n, "_parent", None)
    return False


# ------------------------------------------------------------ initialisation
def init_traces(P, ck, L, m, fn, nvar):
    """Paths of constructor -> init with sample data possibly given."""
    def run(prefix):
        it = Interp(P, prefix, ModelHooks(L))
        t = LayerTrace(it)
        t.ops_alias = L.ops_alias
        t.ctor = fn
        try:
            it.phase = "ctor"
            model = L.run_ctor(it, m, fn, nvar)
            if isinstance(model, Term) and model.op == "pyobj":
                model = model.args[0].v
            t.model = model
            if not (isinstance(model, Obj) and model.cls and model.cls[0] == "model") or model.abstract:
                t.stopped = "no model"
                return t
            it.phase = "init"
            t.X, t.Ysample = mk("sym", "X"), mk("sym", "Ysample")
            init = model.fields["init"]
            t.init = init
            if init is NONE:
                return t
            t.init_node = _fn_node(it.thaw(init) if isinstance(init, Term) else init)
            it.call(init, [model], [("X", t.X), ("Y", t.Ysample)], t.init_node or model.node)
        except Stop as s:
            t.stopped = ("raise", s.exc, s.node)
        except Budget:
            t.failed = "budget"
        except RecursionError:
            t.failed = "recursion"
        return t

    seen = set()
    out = []
    for c in L.ctor_paths.get((m.name, fn.name, nvar), []):
        if c.stopped or c.failed or not isinstance(c.model, Obj):
            continue
        sig = (L.signature(c), _full(c, [c.model.fields["init"]]) if not isinstance(c.model.fields["init"], Partial) else
               str(id(_fn_node(c.model.fields["init"]))) + _full(c, list(c.model.fields["init"].args) + [v for _, v in c.model.fields["init"].kw]))
        if sig in seen or (sig in L.initsigs):
            continue
        seen.add(sig)
        L.initsigs.add(sig)
        pre = [d for d, _, _ in c.taken]
        out += list(explore(run, 400, pre))
    return out


_icache = {}


def all_init(P, ck):
    if id(P) in _icache:
        return _icache[id(P)]
    L, cs = all_traces(P, ck)
    L.initsigs = set()
    out = []
    for m, fn, reg, ts in cs:
        its = []
        for nv in (1, 2, 3):
            its += init_traces(P, ck, L, m, fn, nv)
        out.append((m, fn, reg, its))
    _icache[id(P)] = (L, out)
    return _icache[id(P)]


def rule_init(P, ck):
    ck.rule("init-params", "On every path of a layer's initialisation, every parameter the layer declares is allocated.", 12)
    ck.rule("init-children", "On every path of a composite layer's initialisation, every sub-layer is initialised, with sample data that "
            "reaches it the way data reaches it in the forward pass.", 20)
    ck.rule("init-initializer", "A parameter P is filled by the initializer passed as init_P.", 12)
    ck.rule("init-dims", "The input dimension nI is inferred from X and the output dimension nO from Y, not the other way round (unless both "
            "are set to the same value); a layer without sub-layers whose nI or nO may be unset infers it from the sample data on some path.", 20)
    L, cs = all_init(P, ck)
    for m, fn, reg, ts in cs:
        ck.anchor = f"{m.rel}:{fn.name}"
        good_ = [t for t in ts if t.stopped is None and not t.failed]
        for t in good_:
            init_trace(ck, L, t, m, fn)
        init_dims(ck, good_, m, fn)
    ck.anchor = None


def init_dims(ck, ts, m, fn):
    found, may = {}, {}
    for t in ts:
        o = t.model
        kids = o.fields["layers"]
        leaf = isinstance(kids, Obj) and not kids.items and not kids.open
        sets = {}
        for e in t.events:
            if e.kind == "set_dim" and e.data["model"] is o:
                n = t.freeze(e.data["name"])
                if is_const(n):
                    sets.setdefault(cval(n), []).append((e, t.freeze(e.data["value"])))
        if not leaf:
            continue
        dims = o.fields["dims"]
        names = [cval(k) for k, _ in dims.items if is_const(k)] if isinstance(dims, Obj) else []
        for n, src in (("nI", t.X), ("nO", t.Ysample)):
            if n in names:
                may.setdefault(n, t)
        for n, own, other, twin in (("nI", t.X, t.Ysample, "nO"), ("nO", t.Ysample, t.X, "nI")):
            for e, v in sets.get(n, []):
                rs = reach_values(t, [v])
                ck.instance("init-dims", f"{fn.name}: {n}")
                if own in rs or other in rs:
                    found[n] = True
                if other in rs and own not in rs and twin in names:
                    same = any(v is w for _, w in sets.get(twin, []))
                    if not same:
                        ck.finding("init-dims", e.node, f"{n} is inferred from {'the target' if n == 'nI' else 'the input'} data [{path(t)}]", fn.name, key=n)
    for n, t in may.items():
        if found.get(n):
            continue
        # a dimension nothing in the layer's initialisation could have set
        if any(e.kind == "set_dim" and e.data["model"] is t.model for t in ts for e in t.events) and n == "nI":
            ck.instance("init-dims", f"{fn.name}: {n} inferred")
            ck.finding("init-dims", t.model.node, f"{n} is never inferred from the sample data", fn.name, key="never " + n)


def path(t):
    return "; ".join(("" if d else "not ") + fmt(c) for d, c, _ in t.taken)[:260]


def init_trace(ck, L, t, m, fn):
    o = t.model
    node = getattr(t, "init_node", None) or o.node
    params = o.fields["params"]
    sets = {}
    for e in t.events:
        if e.kind == "set_param" and e.data["model"] is o:
            sets.setdefault(t.freeze(e.data["name"]), []).append(e)
    if isinstance(params, Obj):
        for k, v in params.items:
            if t.freeze(v) is not NONE:
                continue
            ck.instance("init-params", f"{fn.name}: {fmt(k)}")
            if k not in sets:
                ck.finding("init-params", node, f"parameter {fmt(k)} is not allocated by initialisation [{path(t)}]", fn.name, key=fmt(k))
            if t.it.ctor_args and is_const(k):
                at = arg_terms(t.it, fn)
                n = "init_" + str(cval(k))
                if n in at and k in sets:
                    a = at[n][0]
                    ck.instance("init-initializer", f"{fn.name}: {fmt(k)}")
                    val = t.freeze(sets[k][-1].data["value"])
                    rs = reach_values(t, [val])
                    isnone = t.it.facts.get(mk("cmp", "is", a, NONE))
                    other = [x for x in at if x.startswith("init_") and x != n and isinstance(at[x][0], Term) and at[x][0] in rs]
                    if other or (a not in rs and isnone is not True):
                        ck.finding("init-initializer", sets[k][-1].node, f"parameter {fmt(k)} is not filled by {n} but by {fmt(val)[:60]} [{path(t)}]", fn.name, key=fmt(k))
    la = o.fields["layers"]
    kids = [x for x in la.items if isinstance(x, Obj)] if isinstance(la, Obj) else []
    inits = [e for e in t.events if e.kind == "initialize"]
    fw = forward_sources(L, t, m, fn)
    done = {}
    for e in inits:
        done.setdefault(e.data["model"].id, []).append(e)
    for i, k in enumerate(kids):
        if i not in fw:
            continue      # the forward pass does not run it
        ck.instance("init-children", f"{fn.name}: sub-layer {i} of {len(kids)}")
        if k.id not in done:
            ck.finding("init-children", node, f"sub-layer {i} is not initialised [{path(t)}]", fn.name, key="missing")
    # the sample data of each child comes from where its forward input comes from
    given = t.it.facts.get(mk("cmp", "is", t.X, NONE)) is False
    if fw and given and kids:
        from .flow import Flow
        f = Flow(t)
        pred = {}
        for e in t.events:
            if e.kind == "child":
                pred[mk("childout", e.data["n"])] = e.data["child"]
        for k in kids:
            for e in done.get(k.id, []):
                x = t.freeze(e.data["X"])
                if x is NONE:
                    want = fw.get(kids.index(k)) or []
                    ck.instance("init-children", f"{fn.name}: sample data of sub-layer {kids.index(k)}")
                    if want and all(w == {"X"} for w in want):
                        ck.finding("init-children", e.node, f"sub-layer {kids.index(k)} is initialised without the sample input, although it reads the layer's input in "
                                   f"the forward pass [{path(t)}]", fn.name, key="nosample")
                    continue
                src = set()
                for d in f.deps(x):
                    if d is t.X:
                        src.add("X")
                    elif d in pred:
                        c = pred[d]
                        src.add(kids.index(c) if c in kids else "?")
                want = fw.get(kids.index(k))
                ck.instance("init-children", f"{fn.name}: sample data of sub-layer {kids.index(k)}")
                if want and not any(src == w for w in want) and "?" not in src:
                    ck.finding("init-children", e.node, f"sub-layer {kids.index(k)} is initialised with sample data from {sorted(map(str, src))}, but in the forward "
                               f"pass its input comes from {sorted(map(str, want[0]))} [{path(t)}]", fn.name, key="sample")


def forward_sources(L, t, m, fn):
    """child index -> [set of sources of its forward input], over all forward paths."""
    key = (m.name, fn.name)
    cache = L.__dict__.setdefault("_fwsrc", {})
    nkids = len(t.model.fields["layers"].items) if isinstance(t.model.fields["layers"], Obj) else 0
    if (key, nkids) in cache:
        return cache[(key, nkids)]
    out = {}
    allc = L._allcs if hasattr(L, "_allcs") else None
    for mm, f2, reg, ts in allc or []:
        if f2 is not fn:
            continue
        for x in good(ts):
            la = x.model.fields["layers"]
            kids = [k for k in la.items if isinstance(k, Obj)] if isinstance(la, Obj) else []
            if len(kids) != nkids:
                continue
            v = views(x)
            outs = {mk("childout", c.data["n"]): c.data["child"] for c in v.children}
            for c in v.children:
                if c.data["child"] not in kids:
                    continue
                src = set()
                for d in v.deps(c.data["X"]):
                    if d is x.X:
                        src.add("X")
                    elif d in outs:
                        src.add(kids.index(outs[d]) if outs[d] in kids else "?")
                out.setdefault(kids.index(c.data["child"]), [])
                if src not in out[kids.index(c.data["child"])]:
                    out[kids.index(c.data["child"])].append(src)
    cache[(key, nkids)] = out
    return out


# ---------------------------------------------------------------- containers
META_FIELDS = {"Ragged": ("lengths",), "Padded": ("size_at_t", "lengths", "indices"), "SizedGenerator": ("len",)}


def rule_containers(P, ck):
    ck.rule("meta-field", "When a container is rebuilt around new data, each of its bookkeeping fields is taken from the field of the same "
            "name, and all of them from one and the same container.", 20)
    ck.rule("grad-kind", "The gradient a layer returns for a ragged, padded or list input is again a ragged, padded or list value.", 8)
    L, cs = all_traces(P, ck)
    for m, fn, reg, ts in cs:
        ck.anchor = f"{m.rel}:{fn.name}"
        for t in good(ts):
            v = views(t)
            for e in t.events:
                if e.kind != "construct" or e.phase not in ("forward", "backprop"):
                    continue
                cls = e.data["cls"]
                if cls not in META_FIELDS:
                    continue
                o = e.data["result"]
                srcs = {}
                for f in META_FIELDS[cls]:
                    x = t.freeze(o.fields.get(f, NONE))
                    ck.instance("meta-field", f"{where(e.node)} {cls}.{f}")
                    y = strip_copy(x)
                    if y.op == "attr":
                        if y.args[1] in META_FIELDS[cls] and y.args[1] != f:
                            ck.finding("meta-field", e.node, f"{cls}.{f} is taken from .{y.args[1]} [{v.path()}]", e.func(), key=f"{cls}.{f}")
                        srcs[f] = y.args[0]
                if len(set(srcs.values())) > 1 and e.phase == "forward":
                    bases = set(srcs.values())
                    # gradient and input describe the same batch; two different inputs do not
                    if not bases <= {t.X, t.dY}:
                        ck.finding("meta-field", e.node, f"the fields of {cls} are taken from different containers: "
                                   f"{', '.join(k + ' from ' + fmt(b)[:30] for k, b in srcs.items())} [{v.path()}]", e.func(), key=f"{cls} mixed")
            kinds = input_kind(t)
            ky = value_kind(t, t.Y)
            kd = t.it.isinst.get(t.dY)
            if ky and kd and not ({"list" if x == "tuple" else x for x in kd} & {"list" if x == "tuple" else x for x in ky}):
                continue     # the gradient of the output has the kind of the output
            if ky and any(c.op == "isinst" and c.args[0] is t.dY and val is False and set(ky) & set(c.args[1]) for c, val in t.it.facts.items()):
                continue
            if kinds and t.dX is not None:
                got = value_kind(t, t.dX)
                ck.instance("grad-kind", f"{fn.name}: {'/'.join(sorted(kinds))}")
                if got and not (got & kinds):
                    ck.finding("grad-kind", getattr(t, "bp_node", None) or t.fwd_node, f"for a {'/'.join(sorted(kinds))} input the gradient is a {'/'.join(sorted(got))} "
                               f"[{v.path()}]", key=f"{'/'.join(sorted(kinds))}")
    ck.anchor = None


def strip_copy(x):
    while x.op == "call" and short(x.args[0]) in ("copy", "asarray1i", "asarray_i", "asarray", "as_contig", "astype") and x.args[1]:
        x = x.args[1][0]
    return x


def input_kind(t):
    k = t.it.isinst.get(t.X)
    if not k:
        return None
    k = set(k)
    if k <= {"list", "tuple"}:
        return {"list", "tuple"}
    if k <= {"Ragged"} or k <= {"Padded"}:
        return k
    return None


def value_kind(t, v):
    if isinstance(v, Obj):
        if v.kind == "list":
            return {"list", "tuple"}
        if v.kind == "inst" and v.cls and v.cls[0] == "cls":
            return {v.cls[-1]}
        return None
    if isinstance(v, Term):
        if v.op in ("list", "tuple"):
            return {"list", "tuple"}
        if v.op == "inst":
            return {v.args[0]}
        if v.op == "pyobj":
            return value_kind(t, v.args[0].v)
        if v.op in ("bin", "iop"):
            return {"array"}
        if v.op == "call":
            s = short(v.args[0])
            if s in ("unflatten", "padded2list", "split"):
                return {"list", "tuple"}
            if s in ("list2padded",):
                return {"Padded"}
            if s in ("flatten", "gemm", "reshape2f", "alloc2f", "alloc3f", "concatenate", "vstack", "hstack"):
                return {"array"}
    return None
