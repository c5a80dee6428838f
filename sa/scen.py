"""Obligations stated over abstract executions of public operations."""
import ast

from .interp import (Func, Partial, Class, Builtin, Obj, Term, Stop, Budget, mk, const, NONE, TRUE, FALSE, is_const, cval, _unwrap, fmt)
from .heap import distinct, Gen
from .report import Incomplete
from .world import World, WScenario, HeapHooks, WorldInterp, D, L, strip, same, is_array, kind
from .flow import short


def find_def(P, mod, qual):
    m = P.modules.get(mod)
    if m is None:
        return None
    n = m.tree
    for part in qual.split("."):
        n = next((x for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part and x is not n), None)
        if n is None:
            return None
    return n


def show(v):
    v = _unwrap(v)
    if isinstance(v, Obj):
        if v.kind == "list":
            return "[" + ", ".join(show(x) for x in v.items[:4]) + "]"
        if v.kind == "dict":
            return "{...}"
        return repr(v)
    return fmt(v)[:90] if isinstance(v, Term) else repr(v)[:90]


def excname(it, s):
    return it.exc_names(s.exc)[0]


class Rules:
    def __init__(self, P, ck):
        self.P, self.ck = P, ck

    def scenario(self, rule, mod, qual, what, body, hooks=None, limit=120, clean=None, name=None):
        """Analyse `body` (operations and obligations) on every path.  `body`
        raises the obligations with w.req(condition, key, text)."""
        node = find_def(self.P, mod, qual)
        if node is None:
            raise Incomplete(f"{mod}:{qual} not found")
        ck = self.ck
        rel = self.P.modules[mod].rel
        tag = f"{qual}: {what}"
        done = []
        old = ck.anchor
        ck.anchor = f"{rel}:{qual}"

        def b(w, t):
            t.reqs = []

            def req(cond, key, text, at=None, rule=rule):
                t.reqs.append((bool(cond), key, text, at, rule))
                return bool(cond)
            w.req = req
            w.node = node
            body(w, t)

        ps = WScenario(self.P, hooks, limit).paths(b)
        complete = 0
        for t in ps:
            for ok, key, text, at, rl in getattr(t, "reqs", []):
                ck.instance(rl, f"{tag}: {key}")
                if not ok:
                    cond = t.path()
                    ck.finding(rl, at or node, text + (f" [{cond}]" if cond else ""), qual, key=key)
            if t.failed:
                ck.unit("paths given up")
                continue
            if t.stopped is not None:
                ck.unit("paths ending in an exception")
                if not [c for _, c, _ in t.taken if clean is None or not clean(fmt(c))]:
                    n = t.stopped.node
                    ck.finding(rule, n if hasattr(n, "_mod") else node, f"{what}: raises {excname(t.it, t.stopped)} at line {getattr(n, 'lineno', '?')}", qual, key=f"{what} raises")
                    complete += 1
                continue
            complete += 1
        ck.unit("paths", len(ps))
        ck.anchor = old
        if not complete:
            why = "; ".join(sorted({str(t.failed or (t.stopped and excname(t.it, t.stopped))) for t in ps}))
            ck.incomplete.append(f"{tag}: no path could be analysed to its end ({why})")
        return ps

    def raises(self, w, fn, names=None):
        """The operation raises (one of) the exceptions; the name or None."""
        try:
            fn()
        except Stop as s:
            ns = w.it.exc_names(s.exc)
            if names is None or set(ns) & set(names):
                return ns[0]
            return None
        return None


def diff(a, b):
    """First difference between two states {label: value}, or None."""
    for k in a:
        if k not in b:
            return f"{k} is gone"
        x, y = a[k], b[k]
        if isinstance(x, dict):
            d = diff(x, y)
            if d:
                return d
        elif isinstance(x, (list, tuple)):
            if len(x) != len(y) or any(p is not q for p, q in zip(x, y)):
                return f"{k} was {show_l(x)}, now {show_l(y)}"
        elif not ident(x, y):
            return f"{k} was {show(x)}, now {show(y)}"
    for k in b:
        if k not in a:
            return f"{k} is new"
    return None


def show_l(x):
    return "[" + ", ".join(show(i) for i in x) + "]"


def ident(x, y):
    x, y = _unwrap(x), _unwrap(y)
    if x is y:
        return True
    if isinstance(x, (Func, Partial, Builtin, Class)) or isinstance(y, (Func, Partial, Builtin, Class)):
        return type(x) is type(y)
    return False
