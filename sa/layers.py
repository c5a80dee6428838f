"""Abstract semantics of models: how a layer's constructor, its forward pass
and its backward pass act on the model interface (parameters, gradients,
children, callbacks), as events of one trace."""
import ast

from .interp import (Interp, Func, Partial, Class, Builtin, ModRef, Obj, Term, Frame, Stop, Budget, Ret, mk, const, NONE, TRUE,
                     FALSE, is_const, cval, explore, _unwrap, fmt)
from .project import qualname, where
from .flow import Flow, ALLOCS, WRITES, short

MODEL_METHODS = {"get_param", "set_param", "inc_grad", "set_grad", "get_grad", "has_param", "maybe_get_param", "has_grad",
                 "maybe_get_grad", "get_dim", "set_dim", "has_dim", "maybe_get_dim", "get_ref", "set_ref", "has_ref", "maybe_get_ref",
                 "predict", "begin_update", "initialize", "finish_update", "use_params", "walk", "remove_node", "replace_callbacks",
                 "replace_node", "get_gradients", "copy", "to_gpu", "to_cpu", "to_bytes", "from_bytes", "to_dict", "from_dict",
                 "to_disk", "from_disk", "can_from_bytes", "can_from_dict", "_func", "set_child_attrs", "_to_ops"}


class ModelHooks:
    """Intrinsic semantics of Model, Ops and array modules."""
    recurse = False
    opaque_shims = True

    def __init__(self, lay):
        self.lay = lay

    # -- attributes -----------------------------------------------------------
    def getattr(self, it, base, name, e):
        if isinstance(base, Obj) and base.kind == "inst" and getattr(base, "shim", False):
            return mk("attr", mk("shim", base.id), name)
        if isinstance(base, Obj) and base.cls and base.cls[0] == "model":
            if name == "ops":
                return base.fields.get("ops") or mk("ops", "")
            if name in base.fields:
                return base.fields[name]
            if name == "layers" or name == "_layers":
                return mk("attr", mk("model", base.id), "layers")
            if name in ("attrs", "shims", "_attrs", "_shims", "_refs", "_dims", "_params", "_has_params"):
                return base.fields.get(name.lstrip("_")) or mk("attr", mk("model", base.id), name.lstrip("_"))
            if name in MODEL_METHODS:
                return Builtin("model." + name, base)
            if name == "dim_names":
                if not base.abstract:
                    return mk("tuple", *[k for k, _ in base.fields["dims"].items])
                return mk("attr", mk("model", base.id), name)
            if name == "param_names" and not base.abstract:
                return mk("tuple", *[k for k, _ in base.fields["params"].items])
            return mk("attr", mk("model", base.id), name)
        if isinstance(base, Term):
            if base.op == "ops":
                if name == "xp":
                    return mk("xp", "")
                if name in ("name", "device_type", "device_id"):
                    return mk("attr", base, name)
                return mk("opsfn", name)
            if base.op == "xp":
                if name in ("ndarray", "float32", "float64", "int32", "newaxis", "float16", "bool_", "inf", "pi", "e", "nan", "int64", "uint64"):
                    return mk("ext", "numpy." + name)
                return mk("xpfn", (base.args[0] + "." + name).lstrip("."))
            if base.op == "xpfn":
                return mk("xpfn", base.args[0] + "." + name)
            if base.op == "model":
                o = self.lay.model_by_id(base.args[0])
                if o is not None:
                    return it.getattr(o, name, e)
            if base.op == "ext" and base.args[0] in ("numpy", "cupy"):
                return self.getattr(it, mk("xp", ""), name, e)
            if base.op == "glob" and name not in ("get", "set", "reset"):
                if self.is_ops_glob(it, base):
                    return self.getattr(it, mk("ops", ""), name, e)
        if isinstance(base, ModRef) and base.name in ("numpy", "cupy"):
            return self.getattr(it, mk("xp", ""), name, e)
        return None

    def is_ops_glob(self, it, g):
        m, n = g.args
        ex = it.P.modules[m].assigns.get(n) if m in it.P.modules else None
        return bool(ex) and isinstance(ex[-1], ast.Call) and getattr(ex[-1].func, "id", "").endswith("Ops")

    # -- calls ------------------------------------------------------------------
    def call(self, it, f, args, kw, e):
        if isinstance(f, Builtin) and f.name == "hasattr" and len(args) == 2 and is_const(args[1]) and str(cval(args[1])).startswith("__"):
            if isinstance(args[0], Term) and args[0].op in ("cbout", "childout", "sym", "sub", "bin"):
                return TRUE      # arrays and containers support the operators
        if isinstance(f, Term):
            if f.op == "pyobj":
                f = f.args[0].v
            elif f.op == "opsfn":
                return self.ops_call(it, "ops." + f.args[0], args, kw, e)
            elif f.op == "xpfn":
                return self.ops_call(it, "xp." + f.args[0], args, kw, e)
            elif f.op == "childcb":
                return self.cb_call(it, f, args, kw, e)
            elif f.op == "attr" and isinstance(f.args[0], Term):
                if f.args[1] in ("get_array_module",):
                    return mk("xp", "")
        if isinstance(f, Class):
            if f.node.name == "Model" and f.module.name == "thinc.model":
                return self.make_model(it, args, kw, e)
            if f.node.name in ("NumpyOps", "CupyOps", "MPSOps", "Ops"):
                return mk("ops", "")
            if self.opaque_shims and any(c.name == "Shim" for _, c in it.P.mro(f.module, f.node)[0]):
                o = Obj("inst", ("cls", f.module, f.node, f.node.name))
                o.shim = True
                o.label = f"shim{o.id}"
                for i, v in enumerate(args):
                    o.fields[f"arg{i}"] = v
                for k, v in kw:
                    o.fields[k] = v
                it.event("construct", e, cls=f.node.name, args=args, kw=kw, result=o)
                return o
        if isinstance(f, Func):
            n = f.node.name if hasattr(f.node, "name") else ""
            mod = f.module.name
            if mod == "thinc.util" and n in ("get_array_module",):
                return mk("xp", "")
            if mod == "thinc.util" and n == "convert_recursive" and len(args) == 3:
                return it.opaque("thinc.util.convert_recursive", [args[2], args[0], args[1]], kw, e)
            if mod == "thinc.util" and n == "partial":
                return Partial(args[0], args[1:], kw)
            if mod == "thinc.util" and n in ("get_width", "copy_array", "to_categorical", "xp2torch", "torch2xp", "xp2tensorflow",
                                             "tensorflow2xp", "is_xp_array", "is_numpy_array", "is_cupy_array", "is_torch_array", "assert_pytorch_installed",
                                             "assert_tensorflow_installed", "assert_mxnet_installed", "mxnet2xp", "xp2mxnet", "is_torch_cuda_array"):
                return it.opaque("thinc.util." + n, args, kw, e)
            if mod.startswith("thinc.backends") and n in ("get_ops", "get_current_ops", "get_array_ops"):
                return mk("ops", "")
        if isinstance(f, Builtin) and f.recv is not None and f.name.startswith("model."):
            return self.model_method(it, f.recv, f.name[6:], args, kw, e)
        if isinstance(f, Obj) and getattr(f, "shim", False):
            a = self.args(args, kw, ("X", "is_train"))
            return self.child_call(it, f, a.get("X", NONE), a.get("is_train"), e)
        if isinstance(f, Obj) and f.cls and f.cls[0] == "model":
            a = self.args(args, kw, ("X", "is_train"))
            return self.child_call(it, f, a.get("X", NONE), a.get("is_train"), e)
        if isinstance(f, Term) and f.op in ("model",):
            o = self.lay.model_by_id(f.args[0])
            if o is not None:
                return self.call(it, o, args, kw, e)
        if isinstance(f, Term) and f.op in ("sub", "sym", "attr", "call") and self.lay.is_modelish(it, f):
            a = self.args(args, kw, ("X", "is_train"))
            if "is_train" in a:
                return self.child_call(it, f, a.get("X", NONE), a.get("is_train"), e)
        if isinstance(f, Term) and f.op == "attr" and f.args[1] in ("begin_update", "predict", "inc_grad", "get_param", "set_param",
                                                                  "get_dim", "set_dim", "initialize", "_func") and isinstance(f.args[0], Term) and f.args[0].op in ("sub", "sym", "attr", "call"):
            if f.args[1] == "begin_update":
                return self.child_call(it, f.args[0], args[0], TRUE, e)
            if f.args[1] == "predict":
                return mk("sub", self.child_call(it, f.args[0], args[0], FALSE, e), const(0))
        return None

    @staticmethod
    def args(args, kw, names):
        out = dict(zip(names, args))
        for k, v in kw:
            out[k] = v
        return out

    def ops_call(self, it, name, args, kw, e):
        s = short(name)
        kwd = dict((k, v) for k, v in kw)
        # shape bookkeeping folds away
        if s in ALLOCS or s in ("copy", "get_dropout_mask", "array") or name.startswith("xp.random"):
            t = it.fresh(name, args, kw, e)
        else:
            t = it.opaque(name, args, kw, e)
        w = WRITES.get(s, -1)
        if w == 0 and args:
            vals = it.mktuple(list(args[1:]) + [v for _, v in kw]) if len(args) > 1 else NONE
            v = args[2] if s in ("add.at", "subtract.at", "multiply.at", "scatter_add", "put", "place", "putmask") and len(args) > 2 else vals
            if s in ("copyto",) and len(args) > 1:
                v = args[1]
            it.event("mutate", e, target=it.freeze(args[0]), how=f"{s}", value=v)
            if s in ("scatter_add",):
                return it.freeze(args[0])
        if "out" in kwd and kwd["out"] is not NONE:
            it.event("mutate", e, target=it.freeze(kwd["out"]), how=f"{s}(out=...)", value=t)
        eff = self.lay.ops_effects(name, args, kwd, it) if name.startswith("ops.") and w != 0 else None
        if eff:
            for a in eff:
                it.event("mutate", e, target=it.freeze(a), how=f"{s}", value=t)
        return t

    def cb_call(self, it, f, args, kw, e):
        n = f.args[0]
        it.serial += 1
        arg = args[0] if args else (kw[0][1] if kw else NONE)
        out = mk("cbout", n, it.serial)
        it.event("cb", e, n=n, arg=arg, result=out, extra=args[1:])
        return out

    def child_call(self, it, child, X, is_train, e):
        n = len([1 for ev in it.events if ev.kind == "child"])
        it.event("child", e, child=child, X=X, is_train=is_train, n=n)
        return mk("tuple", mk("childout", n), mk("childcb", n))

    def make_model(self, it, args, kw, e):
        a = self.args(args, kw, ("name", "forward"))
        o = Obj("inst", ("model",))
        o.label = None
        for k in ("name", "forward", "init", "ops"):
            o.fields[k] = a.get(k, NONE)
        if o.fields["ops"] is NONE:
            o.fields["ops"] = mk("ops", "")
        for k in ("dims", "params", "attrs", "refs"):
            v = a.get(k)
            if v is None:
                v = Obj("dict")
            elif isinstance(v, Obj):
                c = Obj("dict")
                c.items, c.open = list(v.items), v.open
                v = c
            o.fields[k] = v
        for k in ("layers", "shims"):
            v = a.get(k)
            if v is None:
                v = Obj("list")
            else:
                c = Obj("list")
                ex = it.exact_items(v)
                if ex is not None:
                    c.items = [_unwrap(x) for x in ex]
                    v = c
            o.fields[k] = v
        o.fields["_func"] = o.fields["forward"]
        o.node = e
        self.lay.models[o.id] = o
        it.event("model", e, model=o)
        return o

    def model_method(self, it, m, name, args, kw, e):
        a = lambda *names: self.args(args, kw, names)
        fm = mk("model", m.id)
        if name in ("get_param", "maybe_get_param"):
            it.event("get_param", e, model=m, name=args[0])
            v = self.lay.param_value(it, m, args[0])
            return v
        if name in ("has_param", "has_dim", "has_ref", "has_grad"):
            d = m.fields.get({"has_param": "params", "has_dim": "dims", "has_ref": "refs"}.get(name, ""))
            if not m.abstract and isinstance(d, Obj) and not d.open and is_const(args[0]) and all(is_const(k) for k, _ in d.items):
                if all(k is not args[0] for k, _ in d.items):
                    return FALSE
            return mk("call", "model." + name, (fm, it.freeze(args[0])), ())
        if name in ("get_dim", "maybe_get_dim"):
            it.event("get_dim", e, model=m, name=args[0])
            key = it.freeze(args[0])
            hit = [x for x in it.events if x.kind == "set_dim" and x.data["model"] is m and it.freeze(x.data["name"]) is key]
            if name == "maybe_get_dim":
                return mk("call", "model.maybe_get_dim", (fm, key), (), len(hit))
            return mk("dim", m.id, key)
        if name in ("get_ref", "maybe_get_ref"):
            d = m.fields.get("refs")
            if isinstance(d, Obj):
                for k, v in d.items:
                    if k is args[0]:
                        return v
            return mk("call", "model.get_ref", (fm, it.freeze(args[0])), ())
        if name in ("inc_grad", "set_grad", "set_param", "set_dim", "set_ref"):
            aa = a("name", "value")
            it.event(name, e, model=m, name=aa.get("name", NONE), value=aa.get("value", NONE), kw=kw)
            if name == "set_ref" and isinstance(m.fields.get("refs"), Obj):
                it.dict_put(m.fields["refs"], it.freeze(args[0]), args[1])
            return NONE
        if name == "predict":
            r = self.child_call(it, m, args[0], FALSE, e)
            return r.args[0]
        if name == "begin_update":
            return self.child_call(it, m, args[0], TRUE, e)
        if name == "_func":
            aa = self.args(args[1:], kw, ("X", "is_train"))
            return self.child_call(it, m, aa.get("X", NONE), aa.get("is_train"), e)
        if name == "initialize":
            aa = a("X", "Y")
            it.event("initialize", e, model=m, X=aa.get("X", NONE), Y=aa.get("Y", NONE))
            return m
        if name == "walk":
            return mk("call", "model.walk", (fm,), ())
        it.event("modelcall", e, model=m, name=name, args=args, kw=kw)
        return mk("call", "model." + name, (fm,) + tuple(it.freeze(x) for x in args),
                  tuple((k, it.freeze(v)) for k, v in kw))

    def model_binop(self, it, op, a, b, e):
        return None


class LayerTrace:
    """One path through constructor, forward pass and backward pass."""

    def __init__(self, interp):
        self.it = interp
        self.events = interp.events
        self.taken = interp.taken
        self.truncated = False
        self.model = None
        self.X = self.Y = self.dY = self.dX = None
        self.backprop = None
        self.stopped = None
        self.failed = None
        self.ops_alias = None

    def freeze(self, v):
        return self.it.freeze(v)

    def models_objs(self):
        """Models built or received on this trace."""
        return [e.data["model"] for e in self.events if e.kind == "model"]


class Layers:
    def __init__(self, project):
        self.P = project
        self.models = {}
        self.errors = []
        self.opsinfo = None
        self.sigs = set()
        self.merged = 0
        self.truncated = set()
        self.ctor_paths = {}

    # -- helpers used by the hooks -------------------------------------------
    def model_by_id(self, i):
        return self.models.get(i)

    def is_modelish(self, it, t):
        # element of a `layers` list, a `get_ref` result, or a parameter annotated as a model
        if t.op == "sub":
            return self.is_modelish(it, t.args[0])
        if t.op == "attr":
            return t.args[1] in ("layers", "_layers")
        if t.op == "call":
            return t.args[0] in ("model.get_ref",)
        return False

    def param_value(self, it, m, name):
        n = len([1 for ev in it.events if ev.kind == "set_param" and ev.data["model"] is m])
        return mk("param", m.id, it.freeze(name))

    INPLACE_ALIAS = True

    def ops_effects(self, name, args, kw, it):
        """Arguments an Ops method writes to."""
        s = short(name)
        if s in ("adam", "update_averages"):
            return list(args[:4]) if s == "adam" else list(args[:1])
        if s == "clip_gradient":
            return list(args[:1])
        if s == "position_encode":
            return [kw["out"]] if "out" in kw else []
        out = []
        inplace = kw.get("inplace")
        if inplace is None:
            i = self.inplace_pos(s)
            if i is not None and len(args) > i:
                inplace = args[i]
        if inplace is not None and inplace is not FALSE:
            out.append(args[0])
        return out

    def inplace_pos(self, s):
        r = self.opsinfo_tbl().get(s)
        return r

    def opsinfo_tbl(self):
        """Ops method -> position of its `inplace` parameter."""
        if self.opsinfo is None:
            self.opsinfo = {}
            for mod in ("thinc.backends.ops", "thinc.backends.numpy_ops"):
                m = self.P.modules.get(mod)
                if m is None:
                    continue
                for st in ast.walk(m.tree):
                    if isinstance(st, ast.FunctionDef) and isinstance(getattr(st, "_parent", None), ast.ClassDef):
                        names = [a.arg for a in st.args.args]
                        if "inplace" in names:
                            self.opsinfo[st.name] = names.index("inplace") - 1
                        elif any(a.arg == "inplace" for a in st.args.kwonlyargs):
                            self.opsinfo[st.name] = 99
        return self.opsinfo

    def ops_alias(self, s, args, kw):
        """Arguments the result of an Ops method may share memory with."""
        inplace = kw.get("inplace")
        pos = self.inplace_pos(s)
        if inplace is None and pos is not None and len(args) > pos:
            inplace = args[pos]
        out = []
        if inplace is not None and inplace is not FALSE:
            out.append(args[0])
        if s in ("clip_gradient", "update_averages"):
            out.append(args[0])
        return out

    # -- discovery ---------------------------------------------------------------
    def constructors(self):
        """Functions of thinc.layers that build models: registered, or
        annotated as returning a Model."""
        out = []
        for name, m in sorted(self.P.modules.items()):
            if not name.startswith("thinc.layers"):
                continue
            for st in m.tree.body:
                if not isinstance(st, ast.FunctionDef):
                    continue
                reg = None
                for d in st.decorator_list:
                    if isinstance(d, ast.Call) and ast.unparse(d.func) in ("registry.layers",):
                        reg = ast.literal_eval(d.args[0]) if d.args else None
                ret = ast.unparse(st.returns) if st.returns is not None else ""
                if reg or (ret.strip("'\"").startswith("Model") and not st.name.startswith("_")):
                    out.append((m, st, reg))
        return out

    def child(self, label):
        o = Obj("inst", ("model",))
        o.abstract = True
        o.label = None
        o.name = label
        o.fields["ops"] = mk("ops", "")
        o.id_label = label
        self.models[o.id] = o
        return o

    def ctor_args(self, it, m, fn, nvar=2):
        """Symbolic arguments for a constructor."""
        args, kw = [], []
        a = fn.args
        alla = list(a.args) + list(a.kwonlyargs)
        for x in alla:
            ann = ast.unparse(x.annotation) if x.annotation is not None else ""
            ann = ann.strip("'\"")
            if ann.startswith("Model") or (ann.startswith("Optional[Model") and False):
                v = self.child(x.arg)
            elif ann.startswith("Optional[Model"):
                c = mk("sym", "arg:" + x.arg)
                if it.truth(mk("cmp", "is", c, NONE), fn):
                    v = NONE
                else:
                    v = self.child(x.arg)
            elif ann.startswith("Tuple[Model"):
                # a model and its settings
                v = mk("tuple", *[self.wrapm(it, self.child(x.arg)), *[mk("sym", f"arg:{x.arg}[{i}]") for i in range(1, ann.count(",") + 1)]])
            elif ann.startswith(("Sequence[Model", "List[Model")):
                v = Obj("list")
                v.items = [self.child(f"{x.arg}{i}") for i in range(nvar)]
            else:
                v = mk("sym", "arg:" + x.arg)
            if x in a.args:
                args.append(v)
            else:
                kw.append((x.arg, v))
        if a.vararg is not None:
            ann = ast.unparse(a.vararg.annotation) if a.vararg.annotation is not None else ""
            for i in range(nvar):
                args.append(self.child(f"{a.vararg.arg}{i}") if "Model" in ann else mk("sym", f"arg:{a.vararg.arg}{i}"))
        return args, kw

    def wrapm(self, it, o):
        from .interp import _wrap
        return _wrap(it, o)

    def run_ctor(self, it, m, fn, nvar):
        args, kw = self.ctor_args(it, m, fn, nvar)
        f = Func(fn, m, None)
        it.ctor_args = (args, kw)
        return it.call_func(f, args, kw, fn)

    def traces(self, m, fn, nvar=2, backprop=True, limit=300, twice=False):
        """All analysed paths of ctor -> forward -> backprop.  Constructor paths
        that build the same structure are analysed once."""
        out = []
        starts = []
        first = list(explore(lambda p: self._run(m, fn, nvar, p, False, False), limit))
        for t in first:
            if t.stopped or t.failed:
                out.append(t)
                continue
            sig = self.signature(t)
            if sig in self.sigs:
                self.merged += 1
                continue
            self.sigs.add(sig)
            starts.append([d for d, _, _ in t.taken])
        if first and first[-1].truncated:
            self.truncated.add((m.name, fn.name, "constructor"))
        self.ctor_paths[(m.name, fn.name, nvar)] = first
        if not backprop:
            return out
        for pre in starts:
            ts = list(explore(lambda p: self._run(m, fn, nvar, p, True, twice), limit, pre))
            if ts and ts[-1].truncated:
                self.truncated.add((m.name, fn.name, "forward"))
            out += ts
        return out

    def signature(self, t):
        """What a constructed model's behaviour depends on."""
        import re
        mo = t.model
        fwd = mo.fields["forward"]
        parts = []
        f = fwd
        while isinstance(f, Partial):
            parts.append(_full(t, list(f.args)) + _full(t, [v for _, v in f.kw]))
            f = f.fn
        if isinstance(f, Func):
            parts.append(str(id(f.node)))
            if f.frame is not None:
                parts.append(str([(d, fmt(c)) for d, c, _ in t.taken]) + str(id(t.ctor)))
        else:
            parts.append(_full(t, [fwd]))
        for k in ("dims", "params", "refs"):
            v = mo.fields[k]
            parts.append(str(sorted(fmt(a) for a, _ in v.items)) if isinstance(v, Obj) else _full(t, [v]))
        parts.append(_full(t, [mo.fields["attrs"]]))
        la = mo.fields["layers"]
        parts.append(str(len(la.items)) if isinstance(la, Obj) else _full(t, [la]))
        sh = mo.fields["shims"]
        parts.append(str(len(sh.items)) if isinstance(sh, Obj) else _full(t, [sh]))
        return re.sub(r"(model|dict|list|set|dim|Ragged|#)\(?#?\d+\)?", r"\1", "|".join(parts))

    def _run(self, m, fn, nvar, prefix, forward, twice=False):
            it = Interp(self.P, prefix, ModelHooks(self))
            t = LayerTrace(it)
            t.ops_alias = self.ops_alias
            t.ctor = fn
            try:
                it.phase = "ctor"
                model = self.run_ctor(it, m, fn, nvar)
                if isinstance(model, Term) and model.op == "pyobj":
                    model = model.args[0].v
                t.model = model
                if not (isinstance(model, Obj) and model.cls and model.cls[0] == "model"):
                    t.stopped = "no model"
                    return t
                if model.abstract:
                    t.stopped = "returns argument"
                    return t
                t.ctor_taken = len(it.taken)
                if forward:
                    self.run_model(it, t, model, True, twice)
            except Stop as s:
                t.stopped = ("raise", s.exc, s.node)
            except Budget:
                t.failed = "budget"
            except RecursionError:
                t.failed = "recursion"
            return t

    def run_model(self, it, t, model, backprop=True, twice=False):
        fwd = model.fields["forward"]
        it.phase = "forward"
        t.X = mk("sym", "X")
        t.is_train = mk("sym", "is_train")
        t.fwd_node = _fn_node(fwd)
        r = it.call(fwd, [model, t.X], [("is_train", t.is_train)], t.fwd_node or model.node)
        t.Y = it.subscript(r, const(0), t.fwd_node)
        t.result = r
        t.backprop = it.subscript(r, const(1), t.fwd_node)
        if backprop:
            it.phase = "backprop"
            t.obj_mark = Obj._n
            t.dY = mk("sym", "dY")
            f = it.thaw(t.backprop) if isinstance(t.backprop, Term) else t.backprop
            t.bp_node = _fn_node(f)
            t.dX = it.call(f, [t.dY], [], t.bp_node or t.fwd_node)


def _fn_node(f):
    while isinstance(f, Partial):
        f = f.fn
    if isinstance(f, Func):
        return f.node
    return None


def _full(t, vs):
    out = []
    seen = set()

    def go(x, d):
        if isinstance(x, tuple):
            for y in x:
                go(y, d)
            return
        if not isinstance(x, Term):
            x = t.freeze(x)
        if x.op == "model":
            out.append("model")
            return
        if x.op == "funcref":
            out.append(f"f{x.args[0]}")
            return
        if x.op == "pyobj":
            go(t.freeze(x.args[0].v), d)
            return
        out.append(x.op)
        for a in x.args:
            if isinstance(a, (Term, tuple)):
                go(a, d + 1)
            else:
                out.append(repr(a) if not hasattr(a, "v") else "ref")
    for v in vs:
        go(v if isinstance(v, Term) else t.freeze(v), 0)
    return " ".join(out)
