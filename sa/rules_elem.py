"""Rules about the elementwise operations of the backends."""
import ast
import math
import os

from . import cpp
from .elem import *
from .report import Incomplete
from .rules_ops import ops_classes, bases, methods, OPS

GRID = [x * 0.1317 + 0.0113 for x in range(-190, 191)]
KINKS = [0.0, 1.0, -1.0, 2.5, -2.5, 3.0, -3.0, 6.0]
SAMPLES = {"slope": [1.0, 0.2, 2.5, -0.7, 0.0], "offset": [0.0, 0.5, -0.3], "min_val": [0.0, -1.0, 0.2], "max_val": [1.0, 0.8, 6.0],
           "temperature": [1.0, 0.5, 3.0], "threshold": [None, 5.0], "n": [6.0, 1.0]}
VECS = [[0.3, -1.2, 2.1], [1.7, 0.4, -0.6], [-2.5, 0.1, 0.9]]
ARRAYS = {"X", "Y", "dY", "x", "Xs", "dX"}
TOL = 3e-6
ROUNDED = {"gelu_approx": 3e-4}    # its backward pass has rounded coefficients


def native(P):
    out = {}
    for n, cuda in (("cpu_kernels.hh", False), ("_custom_kernels.cu", True)):
        p = os.path.join(P.repo, "thinc", "backends", n)
        if not os.path.exists(p):
            raise Incomplete(f"{n} not found")
        out[cuda] = cpp.parse(p, f"thinc/backends/{n}", cuda)
    return out[False], out[True]


class Run:
    def __init__(self, paths, why=None):
        self.paths, self.why = paths, why


class Backends:
    def __init__(self, P):
        self.P = P
        self.kernels, self.cuda = native(P)
        self.classes = [(m, c) for m, c in ops_classes(P)]
        self.memo = {}

    def find(self, mod, cls, name):
        for m, c in bases(self.P, mod, cls):
            r = self.P.find_method(m, c, name)
            if r is not None and r[1] is c:
                return r
        return None

    def run(self, mod, cls, name, inplace, given=None):
        """Analyse a method with every array argument a distinct buffer."""
        key = (cls.name, name, inplace, repr(sorted((given or {}).items())))
        if key in self.memo:
            return self.memo[key]
        r = self.find(mod, cls, name)
        f = r[2]
        ps = [a.arg for a in f.args.args[1:] + f.args.kwonlyargs]
        defaults = dict(zip([a.arg for a in f.args.args][::-1], f.args.defaults[::-1])) | dict(zip([a.arg for a in f.args.kwonlyargs], f.args.kw_defaults))
        e = Elem(self.P, mod, cls, self.kernels, self.cuda)
        e.arrays = frozenset(ARRAYS)
        bufs = {}

        def go(e):
            kw = {}
            bufs.clear()
            for p in ps:
                if p == "inplace":
                    kw[p] = Py(inplace)
                elif p in ARRAYS:
                    b = Buf(p, (given or {}).get(p, var(p)), True)
                    bufs[p] = b
                    kw[p] = Arr(b)
                elif p in ("axis", "lengths", "dtype"):
                    kw[p] = Opq(p)
                else:
                    kw[p] = Scal(var(p))
            v = e.call_method(name, [], kw)
            return v, dict(bufs)
        try:
            out = Run([p for p in e.paths(go)])
        except (Unsup, RecursionError) as x:
            out = Run([], str(x))
        except (KeyError, AttributeError, TypeError, IndexError) as x:
            out = Run([], f"{type(x).__name__} {x}")
        out.f, out.params = f, [p for p in ps if p not in ARRAYS and p not in ("inplace", "axis", "lengths", "dtype")]
        out.default = {}
        for p in out.params:
            d = defaults.get(p)
            if isinstance(d, ast.Constant) and isinstance(d.value, (int, float)):
                out.default[p] = float(d.value)
        out.mod = r[0]
        out.has_inplace = "inplace" in ps
        self.memo[key] = out
        return out


def param_envs(params, default):
    out = [{}]
    for p in params:
        xs = [default.get(p) if x is None else x for x in SAMPLES.get(p, [None])]
        if default.get(p) is not None and default[p] not in xs:
            xs = [default[p]] + xs
        xs = [x for x in xs if x is not None] or [1.0]
        out = [dict(e, **{p: x}) for e in out for x in xs]
    return [e for e in out if e.get("min_val", 0) < e.get("max_val", 1) and e.get("min_val", 0.0) < e.get("n", 1)]


def holds(conds, env):
    for f, d in conds:
        if free(f) & ARRAYS:
            continue
        try:
            v = ev(f, env)
        except (Undef, ZeroDivisionError, OverflowError, ValueError):
            return True
        if isinstance(v, list):
            return True
        if bool(v) != d:
            return False
    return True


def close(a, b, tol=TOL):
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def val(f, env):
    try:
        v = ev(f, env)
        return v
    except (ZeroDivisionError, OverflowError, ValueError):
        return None


def vec(v, n=3):
    return v if isinstance(v, list) else [v] * n


def atoms(f, out=None):
    """The comparisons a formula distinguishes."""
    out = set() if out is None else out
    if f[0] in ("lt", "le", "eq", "ne"):
        out.add((f[1], f[2]))
    for x in f[1:]:
        if isinstance(x, tuple):
            atoms(x, out)
    return out


_ROOTS = {}


def pieces(fs, arg, pe):
    """Points on both sides of every boundary of the pieces, and between them."""
    ats = set()
    for f in fs:
        atoms(f, ats)
    rs = set()
    for a, b in ats:
        d = ("sub", a, b)
        names = free(d)
        if arg not in names or names & ARRAYS != {arg} or has_red(d):
            continue
        key = (d, arg, tuple(sorted((k, v) for k, v in pe.items() if k in names)))
        if key not in _ROOTS:
            h = pointwise(d)
            g = lambda x: h(dict(pe, **{arg: x}))
            found = []
            px, pv = None, None
            for x in GRID[::3]:
                v = g(x)
                if v is not None and pv is not None and (v < 0) != (pv < 0):
                    lo, hi = px, x
                    for _ in range(50):
                        m = (lo + hi) / 2
                        w = g(m)
                        if w is None:
                            break
                        if (w < 0) == (pv < 0):
                            lo = m
                        else:
                            hi = m
                    found.append((lo + hi) / 2)
                px, pv = x, v
            _ROOTS[key] = found
        rs |= set(_ROOTS[key])
    rs = sorted(rs)
    return [(a + b) / 2 for a, b in zip(rs, rs[1:]) if b - a > 1e-9]


def compare(f, g, params, tol=TOL, extra=(), env0=None):
    """A point where two formulas differ, or None; None as well if they
    cannot be evaluated at all."""
    names = free(f) | free(g)
    if any(n.startswith("uninit") for n in names):
        return "an element that was never written"
    arrays = sorted(n for n in names if n in ARRAYS)
    n = 0
    red = has_red(f) or has_red(g)
    vf, vg = (pointwise(f), pointwise(g)) if not red else (lambda e: val(f, e), lambda e: val(g, e))
    for pe in params:
        if red:
            pts = [dict(pe, **{a: VECS[(i + j) % 3] for j, a in enumerate(arrays)}) for i in range(3)]
        else:
            pts = []
            for x in GRID + list(extra) + (pieces((f, g), arrays[0], pe) if arrays else []):
                e = dict(pe)
                for j, a in enumerate(arrays):
                    e[a] = x if j == 0 else 0.7 - 0.9 * j + 0.13 * x
                pts.append(e)
        for e in pts:
            if env0 and not holds(env0, e):
                continue
            a, b = vf(e), vg(e)
            if a is None or b is None:
                continue
            n += 1
            if isinstance(a, list) or isinstance(b, list):
                bad = any(not close(x, y, tol) for x, y in zip(vec(a), vec(b)))
            else:
                bad = not close(a, b, tol)
            if bad:
                return ", ".join(f"{k}={v:.4g}" if not isinstance(v, list) else f"{k}={v}" for k, v in e.items() if k in names) + \
                    f": {fmtv(a)} and {fmtv(b)}"
    return None


def fmtv(v):
    return f"{v:.5g}" if not isinstance(v, list) else "[" + ", ".join(f"{x:.4g}" for x in v) + "]"


def result(v):
    return v.buf if isinstance(v, Arr) else None


def adjoint(fwd, bwd, arg, params, conds, tol=TOL):
    """A point where the backward formula is not the derivative of the forward
    formula, or None."""
    red = has_red(fwd) or has_red(bwd)
    d = jvp(fwd, {arg: num(1) if not red else var("__v")})
    vd, vb = (pointwise(d), pointwise(bwd)) if not red else (None, None)
    for pe in params:
        if not red:
            for x in GRID + pieces((fwd, bwd), arg, pe):
                e = dict(pe, **{arg: x, "dY": 1.7})
                if not holds(conds, e):
                    continue
                want, got = vd(e), vb(e)
                if want is None or got is None:
                    continue
                if not close(want * 1.7, got, tol):
                    return f"{arg}={x:.4g}" + "".join(f", {k}={v:g}" for k, v in pe.items()) + f": derivative {want:.5g}, backward pass {got / 1.7:.5g}"
        else:
            for i in range(3):
                x, dy = VECS[i], VECS[(i + 1) % 3]
                e = dict(pe, **{arg: x, "dY": dy})
                if not holds(conds, e):
                    continue
                got = vec(val(bwd, e))
                for k in range(3):
                    col = vec(val(d, dict(e, __v=[1.0 if j == k else 0.0 for j in range(3)])))
                    want = sum(a * b for a, b in zip(col, dy))
                    if not close(want, got[k], tol):
                        return f"{arg}={x}, dY={dy}" + "".join(f", {k}={v:g}" for k, v in pe.items()) + f": gradient {k} should be {want:.5g}, is {got[k]:.5g}"
    return None


def pairs(B):
    m, root = B.classes[0]
    ms = methods(root)
    out = []
    for n in ms:
        if n.startswith("backprop_") and n[len("backprop_"):] in ms:
            out.append((n[len("backprop_"):], n))
        if n.startswith("d") and n[1:] in ms and len(ms[n].args.args) == 2:
            out.append((n[1:], n))
    return out


def rule_derivative(P, ck):
    ck.rule("derivative", "The backward pass of an elementwise or row-wise operation is the derivative of its forward pass, on every piece and for every setting.", 20)
    B = Backends(P)
    for mod, cls in B.classes:
        for fn, bn in pairs(B):
            own = {c.name for n in (fn, bn) for _, c, _ in [B.find(mod, cls, n)]}
            if cls is not B.classes[0][1] and cls.name not in own and own == {"Ops"}:
                continue
            fr = B.run(mod, cls, fn, False)
            for conds, (v, bufs), taken in fr.paths:
                out = result(v)
                if out is None:
                    continue
                fwd = out.f
                if any(n.startswith("uninit") for n in free(fwd)):
                    ck.finding("derivative", fr.f, f"{cls.name}.{fn} returns elements it never wrote", f"{cls.name}.{fn}", "uninitialised")
                    continue
                arg = next((a for a in ("X", "x", "Xs") if a in free(fwd)), None)
                if arg is None:
                    continue
                br = B.run(mod, cls, bn, False, {"Y": fwd, "X": var(arg), "x": var(arg)})
                for bconds, (bv, bb), btaken in br.paths:
                    if not compatible(taken, btaken):
                        continue
                    b = result(bv)
                    if b is None:
                        continue
                    bwd = b.f if "dY" in bb else f2("mul", var("dY"), b.f)
                    ck.anchor = f"{br.mod.rel}:{cls.name}.{bn}"
                    ck.instance("derivative", f"{cls.name}.{bn} " + ("; ".join(("" if d else "not ") + k[:40] for k, d in btaken)))
                    params = param_envs(fr.params, fr.default)
                    if any(n.startswith("uninit") for n in free(bwd)):
                        ck.finding("derivative", br.f, f"{cls.name}.{bn} returns elements it never wrote", f"{cls.name}.{bn}", "uninitialised")
                        continue
                    why = adjoint(fwd, bwd, arg, params, conds + bconds, ROUNDED.get(fn, TOL))
                    if why:
                        ck.finding("derivative", br.f, f"{cls.name}.{bn} is not the derivative of {fn}: {why}", f"{cls.name}.{bn}", "derivative")
    ck.anchor = None


def compatible(a, b):
    """Decisions about scalars and dtypes that exclude each other."""
    d = dict(a)
    return all(d.get(k, v) == v for k, v in b if ".flags" not in k)


def ops_names(B):
    """Operations on arrays that compute one value per element or row."""
    m, root = B.classes[0]
    return [n for n, f in methods(root).items() if not n.startswith("_") and any(a.arg in ARRAYS for a in f.args.args)
            and all(a.arg in ARRAYS or a.arg in ("inplace", "axis", "lengths") or a.arg in SAMPLES for a in f.args.args[1:] + f.args.kwonlyargs)]


def rule_same(P, ck):
    ck.rule("same", "Every backend computes the same function for an elementwise operation, whatever the dtype and memory layout.", 20)
    B = Backends(P)
    base = B.classes[0]
    for name in ops_names(B):
        given = {}
        names = {a.arg for a in methods(base[1])[name].args.args}
        if {"X", "Y"} <= names and name.startswith("backprop_") and name[9:] in methods(base[1]):
            outs = [result(v) for _, (v, _), _ in B.run(base[0], base[1], name[9:], False).paths]
            if outs and outs[0] is not None:
                given["Y"] = outs[0].f
        ref = B.run(base[0], base[1], name, False, given)
        for mod, cls in B.classes:
            r = B.run(mod, cls, name, False, given)
            for conds, (v, bufs), taken in r.paths:
                out = result(v)
                if out is None:
                    continue
                for rc, (rv, rb), rt in ref.paths:
                    ro = result(rv)
                    if ro is None or ro is out or not compatible(taken, rt):
                        continue
                    ck.anchor = f"{r.mod.rel}:{cls.name}.{name}"
                    ck.instance("same", f"{cls.name}.{name} " + "; ".join(("" if d else "not ") + k[:40] for k, d in taken))
                    why = compare(ro.f, out.f, param_envs(ref.params, ref.default), extra=KINKS, env0=conds + rc)
                    if why:
                        ck.finding("same", r.f, f"{cls.name}.{name} differs from the generic implementation at {why}", f"{cls.name}.{name}", "same")
    ck.anchor = None


UPDATES = {"adam": (["weights", "gradient", "mom1", "mom2"], {"beta1": 0.9, "beta2": 0.99, "eps": 1e-2, "learn_rate": 0.3, "mod_rate": 1.0}, ["weights", "mom1", "mom2"]),
           "update_averages": (["ema", "weights"], {"t": 3.0, "max_decay": 0.9999}, ["ema", "weights"])}
UPDATED = {
    "adam": lambda e: adam(e), "update_averages": lambda e: {"weights": e["weights"], "ema": e["ema"] - (1 - min((1 + e["t"]) / (10 + e["t"]), e["max_decay"])) * (e["ema"] - e["weights"])},
}


def adam(e):
    m1 = e["beta1"] * e["mom1"] + (1 - e["beta1"]) * e["gradient"]
    m2 = e["beta2"] * e["mom2"] + (1 - e["beta2"]) * e["gradient"] ** 2
    return {"mom1": m1, "mom2": m2, "weights": e["weights"] - e["learn_rate"] * m1 / (math.sqrt(m2) + e["eps"])}


def rule_updates(P, ck):
    ck.rule("update", "The optimizer's update operations change the weights, moments and averages by the documented amounts, in every backend that is written out.", 3)
    B = Backends(P)
    for name, (arrays, scal, outs) in UPDATES.items():
        done = []
        for mod, cls in B.classes:
            r = B.find(mod, cls, name)
            if r is None or r[2] in done:
                continue
            done.append(r[2])
            e = Elem(P, mod, cls, B.kernels, B.cuda)
            e.arrays = frozenset(arrays)

            def go(e):
                bufs = {a: Buf(a, var(a), True) for a in arrays}
                e.call_method(name, [], {a: Arr(b) for a, b in bufs.items()} | {k: Scal(var(k)) for k in scal})
                return {a: b.f for a, b in bufs.items()}
            try:
                paths = e.paths(go)
            except Unsup:
                continue
            ck.anchor = f"{mod.rel}:{r[1].name}.{name}"
            tag = f"{r[1].name}.{name}"
            for conds, fin, taken in paths:
                for a in outs:
                    ck.instance("update", f"{tag} {a}")
                    bad = [n for n in free(fin[a]) if n.startswith("uninit")]
                    if bad:
                        ck.finding("update", r[2], f"{tag} leaves {a} without a value: {bad[0]}", tag, f"uninitialised {a}")
                        continue
                    g = pointwise(fin[a])
                    for k in range(12):
                        env = dict(scal, **{x: 0.4 + 0.37 * ((k + 3 * i) % 7) - (1.1 if x in ("weights", "gradient", "mom1") and k % 2 else 0) for i, x in enumerate(arrays)})
                        if "t" in env:
                            env["t"] = [0.0, 3.0, 1e6, 40.0][k % 4]
                        if not holds(conds, env):
                            continue
                        want, got = UPDATED[name](env)[a], g(env)
                        if got is None or not close(want, got):
                            ck.finding("update", r[2], f"{tag}: {a} should become {want:.6g}, becomes {got if got is None else round(got, 6)} for " + ", ".join(f"{x}={v:.3g}" for x, v in env.items()), tag, f"value {a}")
                            break
    ck.anchor = None


def rule_inplace(P, ck):
    ck.rule("pure", "Without inplace an operation leaves its arguments unchanged and returns a new array.", 30)
    ck.rule("inplace", "With inplace an operation writes one argument, the array it returns.", 15)
    ck.rule("value", "With and without inplace the result is the same.", 15)
    B = Backends(P)
    for mod, cls in B.classes:
        for name in ops_names(B):
            own = B.find(mod, cls, name)[1]
            if own.name != cls.name and own.name == "Ops":
                continue
            r = B.run(mod, cls, name, False)
            tag = f"{cls.name}.{name}"
            for conds, (v, bufs), taken in r.paths:
                out = result(v)
                ck.anchor = f"{r.mod.rel}:{tag}"
                ck.instance("pure", tag)
                for p, b in bufs.items():
                    if b.writes:
                        ck.finding("pure", node_at(b.writes[0], r), f"{tag} writes its argument {p}" + (" without inplace" if r.has_inplace else ""), tag, f"writes {p}")
                    if r.has_inplace and out is b:
                        ck.finding("pure", r.f, f"{tag} returns its argument {p} without inplace", tag, f"returns {p}")
                if r.has_inplace and out is None and not (isinstance(v, Tup)):
                    ck.finding("pure", r.f, f"{tag} returns no array", tag, "no array")
            if not r.has_inplace:
                continue
            q = B.run(mod, cls, name, True)
            for conds, (v, bufs), taken in q.paths:
                out = result(v)
                ck.anchor = f"{q.mod.rel}:{tag}"
                ck.instance("inplace", tag)
                if out is None or not out.param:
                    ck.finding("inplace", q.f, f"{tag} with inplace does not return the array it was given", tag, "result")
                    continue
                for p, b in bufs.items():
                    if b.writes and b is not out:
                        ck.finding("inplace", node_at(b.writes[0], q), f"{tag} with inplace writes {p} as well, but returns {out.name}", tag, f"writes {p}")
                if not out.writes:
                    ck.finding("inplace", q.f, f"{tag} with inplace returns {out.name} unchanged", tag, "unchanged")
                for rc, (rv, rb), rt in r.paths:
                    ro = result(rv)
                    if ro is None or not compatible(taken, rt):
                        continue
                    ck.instance("value", tag)
                    why = compare(ro.f, out.f, param_envs(r.params, r.default), extra=KINKS, env0=conds + rc)
                    if why:
                        ck.finding("value", q.f, f"{tag} gives different results without and with inplace at {why}", tag, "value")
    ck.anchor = None


def node_at(n, r):
    return n if getattr(n, "_mod", None) is not None else r.f


def rule_norm(P, ck):
    ck.rule("layernorm", "The backward pass of layer normalization is the derivative of its forward pass with respect to the input, the gain and the bias.", 3)
    B = Backends(P)
    mod = P.modules.get("thinc.layers.layernorm")
    f = mod and P.func("thinc.layers.layernorm", "forward")
    if f is None:
        raise Incomplete("layernorm forward not found")
    e = Elem(P, B.classes[0][0], B.classes[0][1], B.kernels, B.cuda)
    e.arrays = frozenset(ARRAYS)
    grads, params = {}, {}

    def hooks(self, fn, args, kw, node):
        if isinstance(fn, Opq) and fn.t == "model.get_param" and isinstance(args[0], Py):
            n = args[0].v
            if n not in params:
                params[n] = Buf(n, var(n), True)
            return Arr(params[n])
        if isinstance(fn, Opq) and fn.t == "model.inc_grad" and isinstance(args[0], Py):
            n = args[0].v
            g = self.form(args[1])
            grads[n] = f2("add", grads[n], g) if n in grads else g
            return Py(None)
        return None
    e.hooks = hooks

    def go(e):
        grads.clear()
        params.clear()
        x, dy = Buf("X", var("X"), True), Buf("dY", var("dY"), True)
        r = e.call(Fn(f, mod), [Opq("model"), Arr(x), Py(True)], {})
        if not isinstance(r, Tup) or not isinstance(r.xs[1], Fn):
            raise Unsup("result")
        y = r.xs[0].buf.f
        d = e.call(r.xs[1], [Arr(dy)], {})
        return y, d.buf.f, dict(grads), [b for b in [x, dy] + list(params.values()) if b.writes]
    try:
        paths = e.paths(go)
    except Unsup as x:
        raise Incomplete(f"layernorm: {x}")
    ck.anchor = f"{mod.rel}:LayerNorm"
    vecs = {"X": VECS[0], "dY": VECS[1], "G": [0.7, 1.3, -0.4], "b": [0.1, -0.2, 0.3]}
    for conds, (y, dx, grads, wr), taken in paths:
        for b in wr:
            ck.finding("layernorm", f, f"layer normalization writes {b.name}", "forward", f"writes {b.name}")
        for arg, bwd in [("X", dx)] + sorted(grads.items()):
            ck.instance("layernorm", arg)
            for perm in range(3):
                env = {k: v[perm:] + v[:perm] if k != "G" else v for k, v in vecs.items()} | {"N": 3.0}
                d = jvp(y, {arg: var("__v")})
                got = vec(val(bwd, env))
                for k in range(3):
                    col = vec(val(d, dict(env, __v=[1.0 if j == k else 0.0 for j in range(3)])))
                    want = sum(a * b for a, b in zip(col, env["dY"]))
                    if not close(want, got[k], 1e-6):
                        ck.finding("layernorm", f, f"the gradient of {arg} should be {want:.5g}, is {got[k]:.5g} (component {k} of a row of three)", "forward", f"gradient {arg}")
                        break
                else:
                    continue
                break
        for p in ("G", "b"):
            if p not in grads:
                ck.finding("layernorm", f, f"no gradient for {p}", "forward", f"no gradient {p}")
    ck.anchor = None


def clip(x, lo, hi):
    return max(lo, min(hi, x))


def sg(x):
    return 1 / (1 + math.exp(-x)) if x > -700 else 0.0


DEFINED = {
    "sigmoid": lambda x, p: sg(x),
    "dsigmoid": lambda y, p: y * (1 - y),
    "dtanh": lambda y, p: 1 - y * y,
    "relu": lambda x, p: max(x, 0.0),
    "relu_k": lambda x, p: clip(x, 0.0, p["n"]),
    "clipped_linear": lambda x, p: clip(x * p["slope"] + p["offset"], p["min_val"], p["max_val"]),
    "hard_sigmoid": lambda x, p: clip(0.2 * x + 0.5, 0.0, 1.0),
    "hard_tanh": lambda x, p: clip(x, -1.0, 1.0),
    "swish": lambda x, p: x * sg(x),
    "hard_swish": lambda x, p: x * clip(0.2 * x + 0.5, 0.0, 1.0),
    "hard_swish_mobilenet": lambda x, p: x * clip(x + 3, 0.0, 6.0) / 6,
    "dish": lambda x, p: 0.5 * x * (x / math.sqrt(1 + x * x) + 1),
    "gelu": lambda x, p: x * 0.5 * (1 + math.erf(x / math.sqrt(2))),
    "gelu_approx": lambda x, p: 0.5 * x * (1 + math.tanh(math.sqrt(2 / math.pi) * (x + 0.044715 * x ** 3))),
    "mish": lambda x, p: x if x >= p["threshold"] else x * math.tanh(math.log1p(math.exp(x))),
    "erf": lambda x, p: math.erf(x),
    "sechsq": lambda x, p: 1 / math.cosh(x) ** 2,
}


def rule_definition(P, ck):
    ck.rule("definition", "Every activation computes the function it is named after, in every backend.", 15)
    B = Backends(P)
    ms = methods(B.classes[0][1])
    for name, ref in DEFINED.items():
        if name not in ms:
            continue
        for mod, cls in B.classes:
            own = B.find(mod, cls, name)[1]
            if own.name != cls.name and own.name == "Ops":
                continue
            r = B.run(mod, cls, name, False)
            for conds, (v, bufs), taken in r.paths:
                out = result(v)
                if out is None:
                    continue
                ck.anchor = f"{r.mod.rel}:{cls.name}.{name}"
                ck.instance("definition", f"{cls.name}.{name}")
                if any(n.startswith("uninit") for n in free(out.f)):
                    ck.finding("definition", r.f, f"{cls.name}.{name} returns elements it never wrote", f"{cls.name}.{name}", "uninitialised")
                    continue
                arg = next(iter(bufs))
                g = pointwise(out.f)
                for pe in param_envs(r.params, r.default):
                    for x in GRID + KINKS + pieces((out.f,), arg, pe):
                        e = dict(pe, **{arg: x})
                        if not holds(conds, e):
                            continue
                        want, got = ref(x, pe), g(e)
                        if got is not None and not close(want, got):
                            ck.finding("definition", r.f, f"{cls.name}.{name}({x:.4g}" + "".join(f", {k}={v:g}" for k, v in pe.items()) + f") should be {want:.6g}, is {got:.6g}", f"{cls.name}.{name}", "value")
                            break
                    else:
                        continue
                    break
    ck.anchor = None
