"""Rules about the backend classes (Ops and its subclasses)."""
import ast

from .project import where
from .report import Incomplete

OPS = "thinc.backends.ops"


def ops_classes(P):
    """(module, class) of Ops and every class derived from it."""
    m = P.modules.get(OPS)
    if m is None or "Ops" not in m.defs:
        raise Incomplete("class Ops not found")
    root = m.defs["Ops"]
    out = [(m, root)]
    for mod in P.modules.values():
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.ClassDef) and n is not root and any(c is root for _, c in bases(P, mod, n)):
                out.append((mod, n))
    return out


def bases(P, mod, cls):
    """The linearisation; a base that is chosen between alternatives counts
    with each of them."""
    out = list(P.mro(mod, cls)[0])
    for m, c in list(out):
        for b in c.bases:
            if isinstance(b, ast.Name):
                r = P.resolve(m.name, b.id)
                if r and r[0] == "assign":
                    for v in r[2]:
                        if isinstance(v, ast.Name):
                            q = P.resolve(r[1].name, v.id)
                            if q and q[0] == "class":
                                out += [x for x in bases(P, q[1], q[2]) if x not in out]
                        elif isinstance(v, ast.IfExp):
                            for w in (v.body, v.orelse):
                                q = P.resolve(r[1].name, w.id) if isinstance(w, ast.Name) else None
                                if q and q[0] == "class":
                                    out += [x for x in bases(P, q[1], q[2]) if x not in out]
    return out


def methods(cls):
    out = {}
    for st in cls.body:
        if isinstance(st, ast.FunctionDef):
            if any(getattr(d, "id", getattr(d, "attr", "")) == "overload" for d in st.decorator_list):
                continue
            out[st.name] = st
    return out


class Sig:
    def __init__(self, f, method=True):
        a = f.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        d = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        self.static = any(getattr(x, "id", "") == "staticmethod" for x in f.decorator_list)
        if method and not self.static:
            pos, d = pos[1:], d[1:]
        self.pos = pos
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.default = dict(zip(pos, d)) | dict(zip(self.kwonly, a.kw_defaults))
        self.var, self.kw = a.vararg is not None, a.kwarg is not None

    def names(self):
        return self.pos + self.kwonly

    def bind(self, npos, keywords, star=False, dstar=False):
        """Why a call does not bind, or None."""
        if npos > len(self.pos) and not self.var:
            return f"{npos} positional arguments for {len(self.pos)} parameters"
        for k in keywords:
            if k not in self.names() and not self.kw:
                return f"no parameter {k}"
            if k in self.pos[:npos]:
                return f"{k} given twice"
        if not star and not dstar:
            miss = [p for p in self.pos[npos:] + self.kwonly if p not in keywords and self.default.get(p) is None]
            if miss:
                return f"no value for {', '.join(miss)}"
        return None


def lit(e):
    try:
        v = ast.literal_eval(e)
        return (v if not isinstance(v, (int, float)) or isinstance(v, bool) else float(v),)
    except Exception:
        return ast.unparse(e)


def nothing(e):
    """None, or the call of an array function that returns nothing."""
    if isinstance(e, ast.Constant):
        return e.value is None
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and (
        e.func.attr == "at" or e.func.attr in ("sort", "fill", "extend", "append", "scatter_add") and not e.keywords and len(e.args) < 2)


def returns(f):
    """Does the function return a value on every path, on none, or on some?"""
    def ends(body):
        for st in body:
            if isinstance(st, ast.Return):
                return {"none" if st.value is None or nothing(st.value) else "value"}
            if isinstance(st, ast.Raise):
                return set()
            if isinstance(st, ast.If):
                a, b = ends(st.body), ends(st.orelse)
                if "fall" not in a and "fall" not in b:
                    return a | b
                rest = ends(body[body.index(st) + 1:])
                return (a | b) - {"fall"} | rest
            if isinstance(st, (ast.With,)):
                a = ends(st.body)
                if "fall" not in a:
                    return a
                return a - {"fall"} | ends(body[body.index(st) + 1:])
            if isinstance(st, (ast.For, ast.While)):
                a = ends(st.body) - {"fall"}
                if a:
                    return a | ends(body[body.index(st) + 1:])
            if isinstance(st, ast.Try):
                a = ends(st.body + st.orelse)
                for h in st.handlers:
                    a = a | ends(h.body)
                if "fall" not in a:
                    return a
                return a - {"fall"} | ends(body[body.index(st) + 1:])
        return {"fall"}
    r = ends(f.body)
    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f)):
        return {"value"}
    return {"none" if x == "fall" else x for x in r}


def rule_interface(P, ck):
    ck.rule("override", "An overriding backend method takes every call the base method takes: the same parameters in the same order, with the same defaults.", 40)
    ck.rule("result", "An overriding backend method returns a value on every path if, and only if, the base method does.", 40)
    ck.rule("fallback", "A backend method that falls back to the base class passes on every parameter under its own name and returns the result.", 15)
    ck.rule("call", "Every call of a backend method binds to its signature in every backend.", 150)
    m, root = ops_classes(P)[0]
    classes = ops_classes(P)
    if len(classes) < 4:
        raise Incomplete(f"only {len(classes)} backend classes found")
    base = methods(root)
    for mod, cls in classes[1:]:
        own = methods(cls)
        for name, f in own.items():
            if name == "__init__" or name.startswith("_") and name not in base:
                continue
            b = None
            for _, c in bases(P, mod, cls)[1:]:
                if name in methods(c):
                    b = methods(c)[name]
            if b is None:
                continue
            tag = f"{cls.name}.{name}"
            s, t = Sig(f), Sig(b)
            ck.instance("override", tag)
            ck.anchor = f"{mod.rel}:{tag}"
            for i, p in enumerate(t.pos):
                if p not in s.pos:
                    if p in s.kwonly:
                        ck.finding("override", f, f"{tag} takes {p} only as a keyword, the base class also by position", tag, f"kwonly {p}")
                    elif not s.kw:
                        ck.finding("override", f, f"{tag} has no parameter {p}", tag, f"missing {p}")
                elif s.pos.index(p) != i:
                    ck.finding("override", f, f"parameter {p} of {tag} is at position {s.pos.index(p)}, in the base class at {i}", tag, f"order {p}")
            for p in t.kwonly:
                if p not in s.names() and not s.kw:
                    ck.finding("override", f, f"{tag} has no parameter {p}", tag, f"missing {p}")
            for p in s.names():
                d = s.default.get(p)
                if p not in t.names():
                    if d is None:
                        ck.finding("override", f, f"parameter {p} of {tag} is required, but the base class does not have it", tag, f"extra {p}")
                    continue
                e = t.default.get(p)
                if e is not None and d is None:
                    ck.finding("override", f, f"parameter {p} of {tag} is required, in the base class it is {ast.unparse(e)} by default", tag, f"required {p}")
                elif e is not None and lit(d) != lit(e):
                    ck.finding("override", f, f"the default of {p} in {tag} is {ast.unparse(d)}, in the base class {ast.unparse(e)}", tag, f"default {p}")
            r, q = returns(f), returns(b)
            ck.instance("result", tag)
            if "value" in q and "none" not in q and "none" in r:
                ck.finding("result", f, f"{tag} returns nothing on some path, the base method always returns a value", tag, "result")
            # fall-backs to the base class
            rebound = {}
            for n in ast.walk(f):
                if isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    for x in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        for y in ast.walk(x):
                            if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store):
                                rebound.setdefault(y.id, []).append(n)
            for n in ast.walk(f):
                if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call)
                        and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super"):
                    continue
                if n.func.attr != name:
                    continue
                ck.instance("fallback", f"{tag}")
                if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                    continue
                got = dict(zip(t.pos, n.args)) | {k.arg: k.value for k in n.keywords}
                why = t.bind(len(n.args), [k.arg for k in n.keywords])
                if why:
                    ck.finding("fallback", n, f"{tag} calls the base method with the wrong arguments: {why}", tag, "bind")
                for p in t.names():
                    if p not in s.names():
                        continue
                    v = got.get(p)
                    if v is None:
                        ck.finding("fallback", n, f"{tag} falls back to the base method without {p}", tag, f"drops {p}")
                    elif isinstance(v, ast.Name) and v.id != p and v.id in s.names():
                        ck.finding("fallback", n, f"{tag} falls back to the base method with {v.id} as {p}", tag, f"swaps {p}")
                    elif isinstance(v, ast.Constant):
                        ck.finding("fallback", n, f"{tag} falls back to the base method with the constant {ast.unparse(v)} for {p}", tag, f"constant {p}")
                if "value" in q and "none" not in q:
                    x = getattr(n, "_parent", None)
                    if isinstance(x, ast.Expr):
                        ck.finding("fallback", n, f"{tag} drops the result of the base method", tag, "drops result")
    ck.anchor = None
    # calls of backend methods through `ops` (or `self` in the classes)
    sigs = {}
    for mod, cls in classes:
        for name, f in methods(cls).items():
            sigs.setdefault(name, []).append((cls.name, Sig(f)))
    for mod in P.modules.values():
        for n in ast.walk(mod.tree):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)):
                continue
            v = n.func.value
            recv = v.id if isinstance(v, ast.Name) else v.attr if isinstance(v, ast.Attribute) else v.func.id if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) else ""
            if recv == "self":
                c = n
                while c is not None and not isinstance(c, ast.ClassDef):
                    c = getattr(c, "_parent", None)
                if not any(c is k for _, k in classes):
                    continue
            elif recv not in ("ops", "_ops", "numpy_ops", "get_current_ops", "NumpyOps", "CupyOps"):
                continue
            if n.func.attr not in sigs:
                if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and P.resolve(mod.name, v.value.id) and P.resolve(mod.name, v.value.id)[0] in ("class", "module"):
                    continue  # `registry.ops`: not a backend
                if recv == "ops" and n.func.attr not in ("xp", "name", "device_type", "device_id", "use_blis") and not n.func.attr.startswith("__"):
                    fn = enclosing_params(n)
                    if "ops" in fn or isinstance(v, ast.Attribute):
                        ck.finding("call", n, f"no backend has a method {n.func.attr}", f"{mod.rel}:{n.func.attr}", f"missing method {n.func.attr}")
                continue
            star = any(isinstance(a, ast.Starred) for a in n.args)
            dstar = any(k.arg is None for k in n.keywords)
            ck.instance("call", f"{mod.rel}:{getattr(n, 'lineno', 0)} {n.func.attr}")
            for cn, s in sigs[n.func.attr]:
                why = s.bind(sum(not isinstance(a, ast.Starred) for a in n.args), [k.arg for k in n.keywords if k.arg], star, dstar)
                if why:
                    ck.finding("call", n, f"{cn}.{n.func.attr} cannot be called like this: {why}", f"{mod.rel}:{n.func.attr}", f"{cn} {enclosing(n)}")


def enclosing(n):
    while n is not None and not isinstance(n, ast.FunctionDef):
        n = getattr(n, "_parent", None)
    return n.name if n is not None else "<module>"


def enclosing_params(n):
    out = set()
    while n is not None:
        if isinstance(n, ast.FunctionDef):
            out |= {a.arg for a in n.args.args + n.args.kwonlyargs}
        n = getattr(n, "_parent", None)
    return out
