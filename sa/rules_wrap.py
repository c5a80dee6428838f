"""Rules about wrapped PyTorch models: what crosses the boundary.

Tensors, the wrapped module and autograd are objects with the documented meaning of the framework; everything on the side
of this repository (wrapper, converters, shim, gradient scaler) is interpreted."""
from .scen import *
from .interp import _unwrap
from .rules_model import Calls
from .rules_state import scope, body_exc
from .world import is_array

MOD = "thinc.layers.pytorchwrapper"
SH = "thinc.shims.pytorch"
UT = "thinc.util"
N = [0]


class TorchInterp(WorldInterp):
    nograd = 0

    def tensor(self, src, **k):
        o = Obj("inst", ("tensor",))
        o.fields = {"src": src, "grad": NONE, "device": k.get("device", self.hooks.cpu), "requires_grad": k.get("req", FALSE), "is_cuda": TRUE if self.hooks.cuda else FALSE}
        self.hooks.tensors.append(o)
        return o

    def getattr(self, base, name, e):
        b = _unwrap(base)
        if isinstance(b, Obj) and b.kind == "inst" and b.cls and b.cls[0] in ("tensor", "net"):
            if b.cls[0] == "tensor" and name == "data":
                return b
            if name in b.fields and name != "src":
                return b.fields[name]
            return Builtin(b.cls[0] + "." + name, b)
        if isinstance(b, Obj) and b.kind == "inst" and b.cls and b.cls[0] == "super":
            (m, c), me = b.cls[1], b.cls[2]
            chain = self.P.mro(me.cls[1], me.cls[2])[0]
            i = next((i for i, x in enumerate(chain) if x[1] is c), -1)
            r = self.P.find_method(me.cls[1], me.cls[2], name, skip=i + 1)
            if r:
                return Func(r[2], r[0], None, bound=me, cls=(r[0], r[1]))
            return Builtin("object." + name, me)
        return super().getattr(base, name, e)

    def setattr(self, base, name, v, st, aug=False):
        b = _unwrap(base)
        if isinstance(b, Obj) and b.kind == "inst" and b.cls and b.cls[0] == "tensor":
            v = _unwrap(v)
            if name == "data" and istensor(v):
                b.fields["src"] = v.fields["src"]
            else:
                b.fields[name] = v
            return
        super().setattr(base, name, v, st, aug)

    def is_instance(self, v, names):
        b = _unwrap(v)
        if isinstance(b, Obj) and b.kind == "inst" and b.cls and b.cls[0] in ("tensor", "net"):
            own = {"tensor": {"Tensor"}, "net": {"Module"}}[b.cls[0]]
            return bool(own & {str(n).split(".")[-1] for n in names})
        if isinstance(b, Term) and b.op == "sym" and str(b.args[0]) == "ops:current":
            return bool({"NumpyOps", "Ops"} & set(names))
        return super().is_instance(v, names)

    def builtin(self, b, args, kw, e):
        a = _unwrap(args[0]) if args else None
        if b.recv is None and b.name == "hasattr" and is_const(args[1]):
            n = cval(args[1])
            if is_const(a):
                return const(hasattr(cval(a), n))
            if isinstance(a, Term) and a.op == "tuple":
                return const(hasattr((), n))
            if istensor(a):
                return const(n in ("grad", "data", "device", "is_cuda", "requires_grad", "shape", "__dlpack__", "__add__") or n == "is_mps" and False)
            if is_array(a) and n in ("__dlpack__", "toDlpack", "grad"):
                return const(n == "__dlpack__")
            if isinstance(a, Obj) and a.kind in ("list", "dict") or isinstance(a, Term) and a.op in ("tuple", "const"):
                if n in ("grad", "__dlpack__"):
                    return FALSE
            if isinstance(a, Obj) and a.cls and a.cls[0] == "cls" and n == "grad":
                return FALSE
            if isinstance(a, Term) and a.meta == "distinct" and n == "grad":
                return FALSE
        return super().builtin(b, args, kw, e)

    def compare(self, op, a, b):
        return super().compare(op, scalar(a), scalar(b))

    def static_truth(self, v):
        return super().static_truth(scalar(v))

    def binop(self, op, a, b, e):
        for x, y in ((a, b), (b, a)):
            if istensor(_unwrap(x)) and op == "Mult":
                return self.hooks.method(self, _unwrap(x), "mul", [y], {}, e)
        if op == "Div" and is_const(_unwrap(a)) and cval(_unwrap(a)) == 1 and istensor(_unwrap(b)):
            return self.hooks.method(self, _unwrap(b), "reciprocal", [], {}, e)
        return super().binop(op, a, b, e)

    def enter(self, v, node):
        v = _unwrap(v)
        if isinstance(v, Term) and v.op == "call" and "no_grad" in str(v.args[0]):
            self.nograd += 1
            return NONE
        return super().enter(v, node)

    def leave(self, v, node, exc):
        v = _unwrap(v)
        if isinstance(v, Term) and v.op == "call" and "no_grad" in str(v.args[0]):
            self.nograd -= 1
            return False
        return super().leave(v, node, exc)


def istensor(v):
    return isinstance(v, Obj) and v.kind == "inst" and bool(v.cls) and v.cls[0] == "tensor"


def scalar(v):
    """The value of a tensor holding one known number."""
    b = _unwrap(v)
    if istensor(b) and is_const(b.fields["src"]):
        return b.fields["src"]
    return v


class Torch(Calls):
    interp = TorchInterp
    cuda = False
    cpu = distinct("device")
    outputs = 1          # what the wrapped module returns: tensors in a tuple, or one

    def __init__(self):
        super().__init__()
        self.tensors, self.calls, self.backs, self.opts, self.scaled, self.unscaled, self.updates, self.zeroed = [], [], [], [], [], [], [], []
        self.loaded, self.wrong = [], []
        self.inf = ()
        self.saves = {}

    def call(self, it, f, args, kw, e):
        k = dict(kw)
        if isinstance(f, Func) and f.module.name == "thinc.util":
            n = getattr(f.node, "name", "")
            if n == "get_torch_default_device":
                return self.cpu
            if n == "is_torch_mps_array":
                return FALSE
        if isinstance(f, Func) and f.node is not None and getattr(f.node, "name", "") == "get_current_ops":
            return distinct("ops:current")
        if isinstance(f, Term) and f.op in ("ext", "glob", "attr"):
            d = dotted(f)
            s = d.split(".")[-1]
            if s in ("from_dlpack", "from_numpy") and args and is_array(_unwrap(args[0])):
                r = it.tensor(it.freeze(args[0]))
                r.shared = r.fields["src"]      # the memory is that of the array
                return r
            if d == "torch.save" or d.endswith("torch.save"):
                r = mk("call", "torch.save", (const(len(self.saves)),), ())
                self.saves[r] = [(a, _unwrap(v).fields["src"]) for a, v in _unwrap(args[0]).items]
                _unwrap(args[1]).data = r
                return NONE
            if d == "torch.load" or d.endswith("torch.load"):
                r = D()
                r.items = [(a, it.tensor(v, device=k.get("map_location", self.cpu))) for a, v in self.saves[it.freeze(_unwrap(args[0]).data)]]
                return r
            if s == "to_dlpack" and args and istensor(_unwrap(args[0])):
                return args[0]
            if s in ("cupy_from_dlpack", "from_dlpack", "fromDlpack") and args and istensor(_unwrap(args[0])):
                return _unwrap(args[0]).fields["src"]
            if d.endswith("autograd.backward"):
                return self.backward(it, args, k, e)
            if d in ("torch.full", "thinc.compat.torch.full") or s == "full" and "torch" in d:
                return it.tensor(_unwrap(args[1]), device=k.get("device", self.cpu))
            if s in ("zeros", "ones") and "torch" in d:
                return it.tensor(const(0.0 if s == "zeros" else 1.0), device=k.get("device", self.cpu))
            if s == "_amp_foreach_non_finite_check_and_unscale_":
                ts = [_unwrap(t) for t in it.iterate(args[0], e)]
                for t in ts:
                    self.unscaled.append((t, arr_of(_unwrap(args[2]))))
                    t.fields["src"] = mk("call", "unscaled", (t.fields["src"], arr_of(_unwrap(args[2]))), ())
                    if t.fields["device"] in self.inf:
                        _unwrap(args[1]).fields["src"] = const(1.0)
                    if t.fields["device"] is not _unwrap(args[1]).fields["device"]:
                        self.wrong.append("a gradient is unscaled together with those of another device")
                return NONE
            if s == "_amp_update_scale_":
                self.updates.append([arr_of(_unwrap(a)) for a in args] + [_unwrap(args[0]), _unwrap(args[1])])
                _unwrap(args[0]).fields["src"] = distinct(f"scale{len(self.updates)}")
                return NONE
            if s == "get_current_ops":
                return distinct("ops:current")
        if isinstance(f, Obj) and f.cls and f.cls[0] == "net":
            self.calls.append(dict(args=[_unwrap(a) for a in args], kw={a: _unwrap(b) for a, b in kw}, mode=f.fields["mode"], nograd=it.nograd))
            i = len(self.calls)
            mkt = lambda j: it.tensor(distinct(f"arr:out{i}_{j}"), device=distinct("device"))
            if self.outputs == 1:
                r = mkt(0)
            else:
                r = it.mktuple([mkt(j) for j in range(self.outputs)])
            self.calls[-1]["out"] = r
            return r
        if isinstance(f, Builtin) and f.recv is not None and isinstance(f.recv, Obj):
            o = f.recv
            if f.name.startswith("tensor."):
                return self.method(it, o, f.name[7:], args, k, e)
            if f.name.startswith("net."):
                return self.net(it, o, f.name[4:], args, k, e)
        if isinstance(f, Term) and f.op == "sym" and str(f.args[0]).startswith("opt"):
            self.opts.append([it.freeze(a) for a in args])
            return it.mktuple([distinct(f"arr:new{len(self.opts)}"), distinct(f"arr:cleared{len(self.opts)}")])
        return super().call(it, f, args, kw, e)

    def method(self, it, o, n, args, k, e):
        if n in ("to", "cuda", "cpu"):
            d = k.get("device", args[0] if args else None)
            if d is not None and isinstance(d, Term) and d.meta == "distinct" and d is not o.fields["device"]:
                return it.tensor(o.fields["src"], device=d)
            return o
        if n in ("detach", "contiguous", "float", "double"):
            return o
        if n == "reciprocal":
            return it.tensor(mk("call", "reciprocal", (o.fields["src"],), ()), device=o.fields["device"])
        if n == "numpy":
            return o.fields["src"]
        if n == "requires_grad_":
            o.fields["requires_grad"] = args[0] if args else TRUE
            return o
        if n.endswith("_") and n != "requires_grad_" and getattr(o, "shared", None) is not None:
            self.wrong.append(f"{fmt(o.shared)} is changed in place by {n}: the tensor shares the memory of the array given by the caller")
        if n == "zero_":
            self.zeroed.append(o)
            o.fields["src"] = mk("call", "zeros", (o.fields["src"],), ())
            return o
        if n == "clone":
            return it.tensor(o.fields["src"])
        if n in ("mul_", "mul"):
            s = arr_of(_unwrap(args[0]))
            self.scaled.append((o, s))
            if n == "mul":
                return it.tensor(mk("call", "scaled", (o.fields["src"], s), ()))
            o.fields["src"] = mk("call", "scaled", (o.fields["src"], s), ())
            return o
        return it.opaque("tensor." + n, [o.fields["src"]] + list(args), list(k.items()), e)

    def net(self, it, o, n, args, k, e):
        if n in ("train", "eval"):
            o.fields["mode"] = n if not args else ("train" if it.truth(args[0], e) else "eval")
            return o
        if n == "parameters":
            return _unwrap(it.call(Builtin("iter"), [L(*[p for _, p in o.params])], [], e))
        if n == "named_parameters":
            dup = it.truth(k.get("remove_duplicate", args[2] if len(args) > 2 else TRUE), e)
            return L(*[it.mktuple([const(a), p]) for a, p in (o.params if dup else o.params + o.tied)])
        if n == "state_dict":
            r = D()
            r.items = [(const(a), p) for a, p in o.entries()]
            return r
        if n == "load_state_dict":
            d = _unwrap(args[0])
            given = {cval(a): _unwrap(v) for a, v in d.items if is_const(a)}
            strict = it.truth(k.get("strict", args[1] if len(args) > 1 else TRUE), e)
            names = [a for a, _ in o.entries()]
            if strict and set(names) != set(given) or not all(istensor(v) for v in given.values()):
                raise Stop(mk("ext", "RuntimeError"), e)
            for a, p in o.entries():        # in the order of the modules
                if a in given:
                    p.fields["src"] = given[a].fields["src"]
            self.loaded.append(d)
            return NONE
        if n in ("to", "cpu", "cuda"):
            return o
        return it.opaque("net." + n, list(args), list(k.items()), e)

    def backward(self, it, args, k, e):
        a = dict(zip(("tensors", "grad_tensors"), args))
        a.update(k)
        flat = lambda v: [v] if istensor(_unwrap(v)) else [_unwrap(x) for x in it.iterate(v, e)]
        ts, gs = flat(_unwrap(a["tensors"])), flat(_unwrap(a["grad_tensors"])) if "grad_tensors" in a else None
        self.backs.append((ts, gs))
        self.started = [g.fields["src"] if istensor(g) else g for g in gs or []]
        if not all(istensor(t) for t in ts):
            raise Stop(mk("ext", "TypeError"), e)
        i = len(self.backs)
        for j, t in enumerate(self.leafs):
            if t.fields["requires_grad"] is TRUE:
                old = t.fields["grad"]
                g = distinct(f"arr:grad{j}_{i}")
                if istensor(old):
                    old.fields["src"] = mk("bin", "+", old.fields["src"], g)
                else:
                    t.fields["grad"] = it.tensor(g, device=t.fields["device"])
        return NONE

    @property
    def leafs(self):
        ins = []
        for c in self.calls:
            for v in c["args"] + list(c["kw"].values()):
                ins += list(nested(v))
        return [p for _, p in self.net_obj.params] + [t for i, t in enumerate(ins) if not any(t is x for x in ins[:i])]


class TwoOut(Torch):
    outputs = 2


class ThreeOut(Torch):
    outputs = 3


def dotted(f):
    out = []
    while isinstance(f, Term) and f.op == "attr":
        out.append(str(f.args[1]))
        f = f.args[0]
    out.append(str(f.args[-1]) if isinstance(f, Term) else "?")
    return ".".join(reversed(out))


def nested(v):
    v = _unwrap(v)
    if istensor(v):
        yield v
    elif isinstance(v, Obj) and v.kind == "list":
        for x in v.items:
            yield from nested(x)
    elif isinstance(v, Obj) and v.kind == "dict":
        for _, x in v.items:
            yield from nested(x)
    elif isinstance(v, Term) and v.op == "tuple":
        for x in v.args:
            yield from nested(x)


class Net(Obj):
    def entries(self):
        return self.params + self.tied + self.buffers


def network(w, params=("W", "b"), buffers=("running",)):
    """A module with parameters and buffers; the first parameter is known by a second name as well."""
    o = Net("inst", ("net",))
    o.fields = {"mode": "train", "training": TRUE}
    o.params = [(n, w.it.tensor(distinct("arr:param_" + n), req=TRUE)) for n in params]
    o.buffers = [(n, w.it.tensor(distinct("arr:buffer_" + n))) for n in buffers]
    o.tied = [("tied." + n, p) for n, p in o.params[:1]]
    w.it.hooks.net_obj = o
    return o


# ------------------------------------------------------------------ structures
def AK(w, args, kwargs):
    it = w.it
    return _unwrap(it.call(it.from_res(it.P.resolve("thinc.types", "ArgsKwargs"), it.P.modules["thinc.types"], "ArgsKwargs"), [], [("args", it.mktuple(list(args))), ("kwargs", D(**kwargs))], w.node))


def shape_of(w, v, leaf):
    """A comparable form of a structure: ("list", ...) etc., with leaf(v) at the leaves."""
    v = _unwrap(v)
    if isinstance(v, Obj) and v.kind == "list":
        return ("list",) + tuple(shape_of(w, x, leaf) for x in v.items)
    if isinstance(v, Obj) and v.kind == "dict":
        return ("dict",) + tuple((shape_of(w, k, leaf), shape_of(w, x, leaf)) for k, x in v.items)
    if isinstance(v, Term) and v.op in ("tuple", "list"):
        return (v.op,) + tuple(shape_of(w, x, leaf) for x in v.args)
    if isinstance(v, Obj) and v.cls and v.cls[0] == "cls" and getattr(v.cls[2], "name", "") in ("ArgsKwargs", "Padded"):
        n = v.cls[2].name
        f = {"ArgsKwargs": ("args", "kwargs"), "Padded": ("data", "size_at_t", "lengths", "indices")}[n]
        return (n,) + tuple(shape_of(w, w.get(v, x), leaf) for x in f)
    return leaf(v)


def structures(w):
    """(name, structure, leaves in order)"""
    it = w.it
    a, b, c, s = distinct("arr:a"), distinct("arr:b"), distinct("arr:c"), distinct("other")
    return [("an array", a, [a]), ("a list", L(a, b), [a, b]), ("a tuple", it.mktuple([a, b]), [a, b]), ("a dict", D(x=a, y=b), [a, b]),
            ("ArgsKwargs", AK(w, [a, b], {"k": c, "z": a}), [a, b, c, a]), ("an empty list", L(), []), ("an empty tuple", it.mktuple([]), []), ("an empty dict", D(), []),
            ("another value", s, []), ("None", NONE, []), ("a list with the same array twice", L(a, a), [a, a]),
            ("nested lists", L(L(a), L(), L(b, L(c))), [a, b, c]), ("a dict of tuples and others", D(x=it.mktuple([a, s]), y=L(D(z=b)), n=const(3)), [a, b]),
            ("ArgsKwargs of nested values", AK(w, [L(a, b), s], {"k": D(z=c)}), [a, b, c]), ("a tuple of ArgsKwargs", it.mktuple([AK(w, [a], {}), b]), [a, b])]


def rule_recursive(P, ck):
    ck.rule("recursive", "convert_recursive converts each matching leaf of nested lists, tuples, dicts and ArgsKwargs exactly once and in place of the original, keeps everything "
            "else and the kinds of the containers and leaves its argument alone; iterate_recursive yields each matching leaf once, in order.", 24)
    R = Rules(P, ck)
    num = 15
    for i in range(num):
        def body(w, t):
            it = w.it
            name, v, leaves = structures(w)[i]
            log = []

            class Conv(Obj):
                pass
            fn = distinct("conv")
            before = shape_of(w, v, lambda x: it.freeze(x))
            orig = it.hooks.call

            def call(it_, f, args, kw, e):
                if f is fn:
                    log.append(it_.freeze(args[0]))
                    return mk("call", "conv", (it_.freeze(args[0]),), ())
                return orig(it_, f, args, kw, e)
            it.hooks.call = call
            match = it.from_res(P.resolve(UT, "is_xp_array"), P.modules[UT], "is_xp_array")
            out = w.func(UT, "convert_recursive", match, fn, v)
            want = shape_of(w, v, lambda x: mk("call", "conv", (x,), ()) if any(x is l for l in leaves) else it.freeze(x))
            got = shape_of(w, out, lambda x: it.freeze(x))
            w.req(got == want, "converted", f"convert_recursive of {name} gives another structure: {str(got)[:150]}")
            w.req(len(log) == len(leaves), "once", f"convert_recursive of {name} calls the conversion {len(log)} times for {len(leaves)} matching leaves")
            w.req(shape_of(w, v, lambda x: it.freeze(x)) == before, "input", f"convert_recursive changes {name} it was given")
            o, vv = _unwrap(out), _unwrap(v)
            if isinstance(vv, Obj) and vv.kind in ("list", "dict"):
                w.req(o is not vv, "fresh", f"convert_recursive returns {name} it was given itself")
            g = w.func(UT, "iterate_recursive", match, v)
            got = [it.freeze(x) for x in it.iterate(g, w.node)]
            w.req(got == leaves, "iterate", f"iterate_recursive of {name} yields {len(got)} values, not the {len(leaves)} matching ones in order")
        R.scenario("recursive", UT, "convert_recursive", f"structure {i}", body, Torch, clean=lambda c: True)


# --------------------------------------------------------------- the wrapper
def arr_of(t):
    """The array a tensor came from."""
    return t.fields["src"] if istensor(t) else t


INPUTS = {"an array": lambda w, a, b: (a, [a], {}, a),
          "a list": lambda w, a, b: (L(a, b), [a, b], {}, "seq"),
          "a tuple": lambda w, a, b: (w.it.mktuple([a, b]), [a, b], {}, "seq"),
          "a dict": lambda w, a, b: (D(p=a, q=b), [], {"p": a, "q": b}, "dict"),
          "ArgsKwargs": lambda w, a, b: (AK(w, [a], {"q": b}), [a], {"q": b}, "ak")}


def wrapper(w, net, maker="PyTorchWrapper_v2", **k):
    return w.func(MOD, maker, net, **k)


def rule_boundary(P, ck):
    ck.rule("boundary", "A wrapped PyTorch model is called once, in the right mode, with each array of the input as a tensor in its place (watched for gradients when training, on the "
            "device of the model); its outputs come back as arrays in the same structure; the callback starts autograd from all outputs with their gradients, aligned, and returns for "
            "each input its gradient, in the place it had.", 24)
    R = Rules(P, ck)
    for maker in ("PyTorchWrapper", "PyTorchWrapper_v2", "PyTorchWrapper_v3"):
        for what, make in INPUTS.items():
            for hooks in (Torch, TwoOut, ThreeOut):
                for train in (True, False):
                    def body(w, t):
                        it, h = w.it, w.it.hooks
                        net = network(w)
                        m = wrapper(w, net, maker)
                        a, b = distinct("arr:a"), distinct("arr:b")
                        X, wa, wk, kind_ = make(w, a, b)
                        before = shape_of(w, X, lambda x: it.freeze(x))
                        mark = len(h.calls)
                        if train:
                            Y, bp = w.seq(w.call(m, "begin_update", X))
                        else:
                            Y = w.call(m, "predict", X)
                        if not w.req(len(h.calls) - mark == 1, "called", f"the wrapped model is called {len(h.calls) - mark} times"):
                            return
                        c = h.calls[-1]
                        w.req([arr_of(x) for x in c["args"]] == wa and {k: arr_of(x) for k, x in c["kw"].items()} == wk and all(istensor(x) for x in c["args"] + list(c["kw"].values())),
                              "arguments", f"the wrapped model gets for {what} the arguments {[show(arr_of(x)) for x in c['args']]} and {[k for k in c['kw']]}")
                        w.req(c["mode"] == ("train" if train else "eval"), "mode", f"the wrapped model is in {c['mode']} mode when {'training' if train else 'predicting'}")
                        w.req(bool(c["nograd"]) == (not train), "no_grad", "gradients are recorded when predicting" if not train else "no gradients are recorded when training")
                        outs = list(nested(c["out"]))
                        Y = _unwrap(Y)
                        if h.outputs == 1:
                            w.req(it.freeze(Y) is outs[0].fields["src"], "output", f"the output is {show(Y)}, not the one of the wrapped model")
                        else:
                            ok = isinstance(Y, Term) and Y.op == "tuple"
                            w.req(ok and [it.freeze(y) for y in Y.args] == [o.fields["src"] for o in outs], "outputs", "the outputs are not those of the wrapped model, in a tuple")
                        w.req(shape_of(w, X, lambda x: it.freeze(x)) == before, "input kept", "the input is changed")
                        if not train:
                            w.req(net.fields["mode"] == "train", "mode after", "the wrapped model is left in evaluation mode")
                            return
                        ins = list(nested(L(*c["args"]))) + [x for x in c["kw"].values()]
                        w.req(all(x.fields["requires_grad"] is TRUE for x in ins), "watched", "an input is not watched for gradients when training")
                        dY = [distinct(f"arr:dY{i}") for i in range(h.outputs)]
                        try:
                            dX = _unwrap(it.call(bp, [dY[0] if h.outputs == 1 else it.mktuple(dY)], [], w.node))
                        except Stop as s:
                            if not h.backs or all(istensor(x) for x in h.backs[-1][0]):
                                raise
                            w.req(False, "autograd", f"autograd is started with a structure that is not a tensor or a sequence of tensors for {h.outputs} outputs")
                            return
                        if not w.req(len(h.backs) == 1, "autograd once", f"autograd runs {len(h.backs)} times"):
                            return
                        ts, gs = h.backs[0]
                        w.req(len(ts) == len(outs) and all(x is y for x, y in zip(ts, outs)), "from", "autograd does not start from the outputs of the wrapped model, in order")
                        w.req(gs is not None and [arr_of(g) for g in gs] == dY, "gradients", "autograd does not get the gradient of each output, in order")
                        grad = {id(x): it.freeze(x.fields["grad"].fields["src"]) for x in ins if istensor(x.fields["grad"])}
                        want = [grad.get(id(x)) for x in ins]
                        if kind_ == "seq":
                            got = [it.freeze(x) for x in w.seq(dX)] if isinstance(dX, (Obj, Term)) else None
                        elif kind_ == "dict":
                            mp = w.mapping(dX) or {}
                            got = [it.freeze(mp.get(k, NONE)) for k in wk]
                        elif kind_ == "ak":
                            got = [it.freeze(x) for x in w.seq(w.get(dX, "args"))] + [it.freeze(x) for x in (w.mapping(w.get(dX, "kwargs")) or {}).values()]
                        else:
                            got = [it.freeze(dX)]
                        w.req(got == want, "input gradient", f"the gradient returned for {what} is not that of each input in its place")
                    R.scenario("boundary", MOD, maker if maker != "PyTorchWrapper" else "PyTorchWrapper", f"{what}, {hooks.outputs} outputs, {'training' if train else 'predicting'}", body, hooks, clean=lambda c: True)


def padded(w):
    it = w.it
    f = [distinct("arr:data"), distinct("arr:sizes"), distinct("arr:lengths"), distinct("arr:indices")]
    # the arrays of a Padded are stored as they are given
    o = Obj("inst", ("cls", P_(w).modules["thinc.types"], P_(w).modules["thinc.types"].defs["Padded"]))
    o.fields.update(dict(zip(("data", "size_at_t", "lengths", "indices"), f)))
    return o, f


def P_(w):
    return w.it.P


# ------------------------------------------------------------------ updates
class Cuda(Torch):
    cuda = True


class CudaTwo(TwoOut):
    cuda = True


def trainable(w, devices=False):
    """A module with parameters W and b (on different devices), an unused and a frozen one."""
    net = network(w, ("enc.W", "enc.b", "unused"))
    frozen = w.it.tensor(distinct("arr:param_frozen"))
    net.params.append(("frozen", frozen))
    net.params[2][1].fields["requires_grad"] = FALSE
    if devices:
        for n, p in net.params[1:2]:
            p.fields["device"] = distinct("device:second")
    return net


def shim_of(w, m):
    return w.seq(w.get(m, "shims"))[0]


def opt(h):
    return mk("sym", "opt")


def rule_update(P, ck):
    ck.rule("update", "finish_update calls the optimizer once for each parameter of the wrapped model that has a gradient, with the key (id of the shim, name), its value and its gradient, stores the "
            "value that comes back and clears the gradient; parameters without a gradient stay as they are.", 12)
    ck.rule("scaling", "With mixed precision the gradient of each output is scaled once before autograd starts, each gradient of a parameter or an input is unscaled once by the same "
            "scale; if a gradient overflowed, on any device, the callback returns zeros and no parameter is updated, and the gradients are cleared; the scale is updated once for each "
            "finish_update with what was found since the last one.", 24)
    R = Rules(P, ck)

    def check_update(w, h, net, sid, mark, grads, skipped, what):
        new = h.opts[mark:]
        ps = [(n, p) for n, p in net.params if n in grads]
        if skipped:
            w.req(not new, "skipped" + what, f"the optimizer is called although a gradient overflowed{what}")
        else:
            keys = [a[0] for a in new]
            want = [mk("tuple", sid, const(n)) for n, _ in ps]
            w.req(sorted(map(str, keys)) == sorted(map(str, want)), "each parameter once" + what, f"the optimizer is called for {[fmt(k) for k in keys]}, not once for each parameter with a gradient by (id, name){what}")
            by = {str(a[0]): (i, a) for i, a in enumerate(new)}
            for (n, p), k in zip(ps, want):
                if str(k) not in by:
                    continue
                i, a = by[str(k)]
                w.req(a[1] is grads[n][0], "value" + what, f"the optimizer gets {fmt(a[1])[:60]} as the value of {n}{what}")
                w.req(a[2] is grads[n][1], "gradient" + what, f"the optimizer gets {fmt(a[2])[:80]} as the gradient of {n}{what}")
                w.req(p.fields["src"] is distinct(f"arr:new{mark + i + 1}"), "stored" + what, f"the value returned by the optimizer is not stored in {n}{what}")
        for n, p in net.params:
            g = p.fields["grad"]
            w.req(g is NONE or not istensor(g) or "zeros" in str(g.fields["src"]) and "+" not in str(g.fields["src"]).split("zeros")[0], "cleared" + what, f"the gradient of {n} is not cleared{what}")
            if n not in grads or skipped:
                w.req(p.fields["src"] is before_of(grads, n, p), "others kept" + what, f"the parameter {n} changes{what}")

    def before_of(grads, n, p):
        return grads["__before"][n]

    def state(net):
        g = {n: (p.fields["src"], p.fields["grad"].fields["src"]) for n, p in net.params if istensor(p.fields["grad"])}
        g["__before"] = {n: p.fields["src"] for n, p in net.params}
        return g

    for maker in ("PyTorchWrapper_v2", "PyTorchWrapper_v3"):
        for rounds in (1, 2):
            for backs in (1, 2):
                def body(w, t):
                    it, h = w.it, w.it.hooks
                    net = trainable(w)
                    m = wrapper(w, net, maker)
                    sid = it.freeze(w.get(shim_of(w, m), "id"))
                    for r in range(rounds):
                        for b in range(backs):
                            Y, bp = w.seq(w.call(m, "begin_update", distinct(f"arr:X{r}{b}")))
                            it.call(bp, [distinct(f"arr:dY{r}{b}")], [], w.node)
                        g = state(net)
                        w.req(set(g) == {"enc.W", "enc.b", "__before"}, "has gradients", f"the parameters with a gradient after the callback are {sorted(set(g) - {'__before'})}")
                        mark = len(h.opts)
                        w.call(m, "finish_update", opt(h))
                        check_update(w, h, net, sid, mark, g, False, "" if not r else " (second update)")
                R.scenario("update", SH, "PyTorchShim.finish_update", f"{maker}, {rounds} updates, {backs} callbacks", body, Torch, clean=lambda c: True)

    def infs(w):
        a, b = distinct("device"), distinct("device:second")
        return {"no overflow": (), "overflow on the first device": (a,), "overflow on the second device": (b,), "overflow on both devices": (a, b)}

    for hooks in (Cuda, CudaTwo):
        for what, cont in [(a, b) for a in ("no overflow", "overflow on the first device", "overflow on the second device", "overflow on both devices") for b in ("a list", "ArgsKwargs", "an array")]:
            def body(w, t):
                it, h = w.it, w.it.hooks
                net = trainable(w, True) if cont != "an array" else network(w, ())
                m = wrapper(w, net, "PyTorchWrapper_v2", mixed_precision=TRUE)
                shim = shim_of(w, m)
                sid = it.freeze(w.get(shim, "id"))
                sc = _unwrap(w.get(shim, "_grad_scaler")) if "_grad_scaler" in shim.fields else None
                for r, case in enumerate((what, "no overflow")):
                    h.inf = infs(w)[case]
                    inf = bool(h.inf)
                    tag = "" if not r else " (next update)"
                    X = INPUTS[cont](w, distinct(f"arr:a{r}"), distinct(f"arr:b{r}"))[0]
                    Y, bp = w.seq(w.call(m, "begin_update", X))
                    ins = list(nested(L(*h.calls[-1]["args"]))) + list(h.calls[-1]["kw"].values())
                    if cont == "an array" and distinct("device:second") in h.inf:
                        h.inf = (distinct("device"),)
                    dY = [distinct(f"arr:dY{r}{i}") for i in range(h.outputs)]
                    u = len(h.unscaled)
                    dX = it.call(bp, [dY[0] if h.outputs == 1 else it.mktuple(dY)], [], w.node)
                    scale = {x.args[1][1] for x in h.started if isinstance(x, Term) and x.op == "call" and x.args[0] == "scaled"}
                    w.req(len(scale) == 1 and [x.args[1][0] if x.op == "call" and x.args[0] == "scaled" else None for x in h.started] == dY, "scaled" + tag, f"autograd starts from {[fmt(x)[:60] for x in h.started]}, not from each gradient scaled once{tag}")
                    want = mk("call", "reciprocal", (next(iter(scale), NONE),), ())
                    done = h.unscaled[u:]
                    gt = [p.fields["grad"] for _, p in net.params if istensor(p.fields["grad"])] + [x.fields["grad"] for x in ins]
                    w.req(len(done) == len(gt) and all(sum(x is y for x, _ in done) == 1 for y in gt), "unscaled once" + tag, f"{len(done)} gradients are unscaled, not each of the {len(gt)} once{tag}")
                    w.req(all(x is want for _, x in done), "by the scale" + tag, f"a gradient is unscaled by {sorted({fmt(x)[:60] for _, x in done})}, not by the inverse of the scale{tag}")
                    for x in h.wrong:
                        w.req(False, x[:30], x)
                    if cont == "ArgsKwargs":
                        dX = L(*w.seq(w.get(dX, "args")), *(w.mapping(w.get(dX, "kwargs")) or {}).values())
                    got = [it.freeze(x) for x in ([dX] if cont == "an array" else w.seq(dX))]
                    src = [x.fields["grad"].fields["src"] for x in ins]
                    w.req(got == src and all(("zeros" in str(x)) == inf for x in src), "returned" + tag, f"the gradients of the inputs are {'not zeroed although' if inf else 'zeroed although no'} gradient overflowed{tag}")
                    g = state(net)
                    mark, up = len(h.opts), len(h.updates)
                    w.call(m, "finish_update", opt(h))
                    check_update(w, h, net, sid, mark, g, inf, tag)
                    if w.req(len(h.updates) - up == 1, "scale updated" + tag, f"the scale is updated {len(h.updates) - up} times by finish_update{tag}"):
                        f = h.updates[-1]
                        w.req(is_const(f[2]) and (cval(f[2]) != 0) == inf, "found" + tag, f"the scale is updated with found_inf={fmt(f[2])}{tag}")
                        w.req([cval(x) if is_const(x) else None for x in f[3:6]] == [2.0, 0.5, 2000], "settings" + tag, f"the scale is updated with growth factor {fmt(f[3])}, backoff factor {fmt(f[4])} and interval {fmt(f[5])}{tag}")
                        w.req(f[0] is next(iter(scale), None), "same scale" + tag, f"another scale is updated than the one used{tag}")
            R.scenario("scaling", SH, "PyTorchShim.begin_update", f"{cont}, {hooks.outputs} outputs, {what}", body, hooks, clean=lambda c: "amp" not in c)


def rule_rnn(P, ck):
    ck.rule("rnn", "A wrapped PyTorch RNN gets the padded data of its input and no initial state; its output and the gradient it returns are padded batches with the sizes, lengths and "
            "indices of the input, and autograd starts from the output sequence with the data of the gradient.", 8)
    R = Rules(P, ck)
    for train in (True, False):
        def body(w, t):
            it, h = w.it, w.it.hooks
            net = network(w)
            m = w.func(MOD, "PyTorchRNNWrapper", net)
            X, f = padded(w)
            before = shape_of(w, X, lambda x: it.freeze(x))
            Y, bp = w.seq(w.call(m, "begin_update", X)) if train else (w.call(m, "predict", X), None)
            c = h.calls[-1]
            w.req(len(h.calls) == 1 and len(c["args"]) == 2 and not c["kw"] and arr_of(c["args"][0]) is f[0] and c["args"][1] is NONE, "input", "the RNN does not get the padded data and None as its state")
            outs = list(nested(c["out"]))
            Y = _unwrap(Y)
            w.req(shape_of(w, Y, lambda x: it.freeze(x)) == ("Padded", outs[0].fields["src"], *f[1:]), "output", f"the output is {str(shape_of(w, Y, lambda x: fmt(it.freeze(x))))[:120]}, not the output sequence with the sizes, lengths and indices of the input")
            w.req(shape_of(w, X, lambda x: it.freeze(x)) == before, "input kept", "the input is changed")
            if not train:
                return
            w.req(c["args"][0].fields["requires_grad"] is TRUE, "watched", "the input is not watched for gradients")
            d, df = padded(w)
            names = ("data", "size_at_t", "lengths", "indices")
            d.fields.update({n: distinct("arr:d_" + n) for n in names})
            dX = _unwrap(it.call(bp, [d], [], w.node))
            ts, gs = h.backs[-1]
            w.req(len(h.backs) == 1 and ts == [outs[0]] and gs is not None and [arr_of(g) for g in gs] == [d.fields["data"]], "autograd", "autograd does not start from the output sequence with the data of the gradient")
            g = c["args"][0].fields["grad"]
            w.req(istensor(g) and shape_of(w, dX, lambda x: it.freeze(x)) == ("Padded", g.fields["src"], *f[1:]), "gradient", "the gradient is not that of the padded data with the sizes, lengths and indices of the input")
        R.scenario("rnn", MOD, "PyTorchRNNWrapper", "training" if train else "predicting", body, TwoOut, clean=lambda c: True)


def values_of(net):
    return {n: p.fields["src"] for n, p in net.entries()}


def rule_state(P, ck):
    ck.rule("state", "The bytes of the shim of a wrapped PyTorch model hold every parameter and buffer: loading them into another one gives it these values; with custom functions these "
            "get the model (and the bytes and device) and what they return is used. Within use_params the given values replace the parameters with these keys, for the body only.", 12)
    R = Rules(P, ck)

    def body(w, t):
        it = w.it
        one, two = network(w), network(w)
        for n, p in two.params + two.buffers:
            p.fields["src"] = distinct("arr:other_" + n)
        a, b = shim_of(w, wrapper(w, one)), shim_of(w, wrapper(w, two))
        it.setattr(a, "cfg", D(k=const(1)), w.node)
        before = values_of(one)
        data = w.call(a, "to_bytes")
        w.req(values_of(one) == before, "unchanged", "to_bytes changes the wrapped model")
        r = w.call(b, "from_bytes", data)
        w.req(values_of(two) == before, "loaded", f"after from_bytes the values {[n for n in before if values_of(two)[n] is not before[n]]} are not those that were serialized")
        w.req(_unwrap(r) is b, "returned", "from_bytes does not return the shim")
        w.req(w.get(b, "_model") is two, "model", "from_bytes replaces the wrapped model by another object")
        w.req(it.freeze((w.mapping(w.get(b, "cfg")) or {}).get("k", NONE)) is const(1), "config", "the configuration of the shim is not restored")
    R.scenario("state", SH, "PyTorchShim.to_bytes", "default functions", body, Torch, clean=lambda c: True)

    def body(w, t):
        it, h = w.it, w.it.hooks
        one, two, three = network(w), network(w), network(w)
        h.net_obj = one
        log = []
        ser, de = distinct("serialize"), distinct("deserialize")
        orig = h.call

        def call(it_, f, args, kw, e):
            if f is ser or f is de:
                log.append((f, [_unwrap(a) for a in args], dict(kw)))
                return distinct("the_bytes") if f is ser else three
            return orig(it_, f, args, kw, e)
        h.call = call
        a = shim_of(w, wrapper(w, one, "PyTorchWrapper_v3", serialize_model=ser, deserialize_model=de))
        b = shim_of(w, wrapper(w, two, "PyTorchWrapper_v3", serialize_model=ser, deserialize_model=de))
        data = w.call(a, "to_bytes")
        w.req(len(log) == 1 and log[0][0] is ser and log[0][1] == [one], "serialize", "to_bytes does not call serialize_model once with the wrapped model")
        w.call(b, "from_bytes", data)
        w.req(len(log) == 2 and log[1][0] is de and [it.freeze(x) for x in log[1][1][1:2]] == [distinct("the_bytes")] and log[1][1][0] is two, "deserialize",
              "from_bytes does not call deserialize_model once with the wrapped model and the bytes of serialize_model")
        w.req(w.get(b, "_model") is three, "model", "from_bytes does not use the model that deserialize_model returns")
    R.scenario("state", MOD, "PyTorchWrapper_v3", "custom functions", body, Torch, clean=lambda c: True)

    for given in (["W"], ["b"], ["W", "b"], [], ["other"]):
        for key in ("the key of the optimizer", "the prefixed name"):
            for exc in (None, body_exc()):
                for level in ("shim", "model"):
                    def body(w, t):
                        it = w.it
                        net = network(w)
                        m = wrapper(w, net)
                        shim = shim_of(w, m)
                        sid = it.freeze(w.get(shim, "id"))
                        before = values_of(net)
                        new = {n: distinct("arr:given_" + n) for n in given}
                        ps = D()
                        for n, v in new.items():
                            if n == "other":
                                k = mk("tuple", const(10 ** 6), const("W"))
                            elif key == "the prefixed name":
                                k = const(f"pytorch_{cval(sid)}_{n}")
                            else:
                                k = mk("tuple", sid, const(n))
                            ps.items.append((k, v))
                        seen = {}

                        def inside(x):
                            seen.update(values_of(net))
                        try:
                            r = scope(w, w.call(shim if level == "shim" else m, "use_params", ps), inside, exc)
                            w.req(exc is None or r is None, "exception", "use_params swallows an exception of the body")
                        except Stop as s:
                            w.req(exc is not None and excname(it, s) == "KeyboardInterrupt", "exception", f"use_params raises {excname(it, s)}")
                        want = {n: new.get(n.replace("tied.", ""), v) for n, v in before.items()}
                        w.req(seen == want, "inside", f"within use_params({', '.join(given)}) the values {[n for n in want if seen.get(n) is not want[n]]} are not the given ones (or, if none is given, those of before)")
                        w.req(values_of(net) == before, "restored", f"after use_params the values {[n for n in before if values_of(net)[n] is not before[n]]} are not those of before")
                        w.req(len(ps.items) == len(new) and all(any(v is x for x in new.values()) for _, v in ps.items), "argument", "use_params changes its argument")
                    R.scenario("state", SH, "PyTorchShim.use_params", f"{given} by {key}, {'an exception' if exc is not None else 'no exception'}, {level}", body, Torch, clean=lambda c: True)
