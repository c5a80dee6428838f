"""Escape analysis of mutable default arguments: a default that is a list,
dict or set (literal or constructor call) may be read, iterated and copied,
but not modified, stored or returned."""
import ast

MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard", "__setitem__"}
COPYING = {"dict", "list", "set", "tuple", "sorted", "len", "bool", "str", "repr", "any", "all", "sum", "min", "max", "zip", "enumerate", "map", "filter",
           "frozenset", "isinstance", "deepcopy", "copy", "iter", "print", "range", "id", "type", "hash", "format"}


def mutable(d):
    return isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or \
        isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ("list", "dict", "set", "defaultdict", "OrderedDict", "bytearray")


def defaults(fn):
    a = fn.args
    pos = a.posonlyargs + a.args
    for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        if mutable(d):
            yield p.arg, d


def check(P, ck, rule):
    todo, seen = [], set()
    for mn, m in sorted(P.modules.items()):
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                for p, d in defaults(n):
                    ck.instance(rule, f"{m.name}.{getattr(n, 'name', '<lambda>')}({p})")
                    todo.append((m, n, p, f"{m.rel}:{getattr(n, 'name', '<lambda>')}", p))
        class_attrs(P, ck, rule, m)
    while todo:
        m, fn, p, origin, name0 = todo.pop()
        if (id(fn), p) in seen:
            continue
        seen.add((id(fn), p))
        ck.anchor = origin
        for node, text, nxt in escapes(P, m, fn, p):
            if nxt is not None:
                todo.append(nxt + (origin, name0))
            else:
                ck.finding(rule, node, f"the mutable default of {name0} {text}", getattr(fn, "name", "<lambda>"), key=f"default {name0} {text[:30]}")
    ck.anchor = None


def class_attrs(P, ck, rule, m):
    """Mutable class attributes are shared by all instances: methods may only
    change them after the constructor has given the instance its own."""
    for c in ast.walk(m.tree):
        if not isinstance(c, ast.ClassDef):
            continue
        attrs = {}
        for st in c.body:
            for t in (st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AnnAssign) else []):
                if isinstance(t, ast.Name) and getattr(st, "value", None) is not None and mutable(st.value):
                    attrs[t.id] = st
        if not attrs:
            continue
        own = set()
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and f.name == "__init__":
                own = {n.attr for n in ast.walk(f) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == f.args.args[0].arg}
        ck.anchor = f"{m.rel}:{c.name}"
        for a, st in attrs.items():
            ck.instance(rule, f"{m.name}.{c.name}.{a} (class attribute)")
            if a in own:
                continue
            for f in c.body:
                if not isinstance(f, ast.FunctionDef) or not f.args.args or any("classmethod" in ast.unparse(d) for d in f.decorator_list):
                    continue
                me = f.args.args[0].arg
                for n in ast.walk(f):
                    hit = None
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                        hit = n.func.value
                    elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        hit = n.value
                    if isinstance(hit, ast.Attribute) and hit.attr == a and isinstance(hit.value, ast.Name) and hit.value.id == me:
                        ck.finding(rule, n, f"{c.name}.{f.name} changes {a}, which all instances of {c.name} share", c.name, key=f"{c.name}.{a}")
    ck.anchor = None


def escapes(P, m, fn, p):
    """(node, what, next) for every use of the parameter p that keeps or
    changes the object itself; next is a (module, function, parameter) the
    object is handed to."""
    from .mututil import parent_map, rebound_before
    par = parent_map(fn)
    names = {p}
    grow = True
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    while grow:
        grow = False
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in names:
                    for t in n.targets:
                        if isinstance(t, ast.Name) and t.id not in names:
                            names.add(t.id)
                            grow = True
    for st in body:
        for n in ast.walk(st):
            if not (isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Load)):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id in names and not rebound_before(fn, n.target.id, n):
                    yield n, "is modified in place", None
                continue
            if rebound_before(fn, n.id, n):
                continue
            up = par.get(n)
            # through conditional expressions
            while isinstance(up, (ast.IfExp, ast.BoolOp)) and n is not getattr(up, "test", None):
                n2, up = up, par.get(up)
            if isinstance(up, ast.Attribute) and up.value is n:
                call = par.get(up)
                if up.attr in MUT and isinstance(call, ast.Call) and call.func is up:
                    yield call, f"is modified by {up.attr}()", None
                continue
            if isinstance(up, ast.Subscript) and up.value is n and isinstance(up.ctx, (ast.Store, ast.Del)):
                yield up, "is modified by an item assignment", None
                continue
            if isinstance(up, ast.Return) or isinstance(up, (ast.Yield,)):
                yield up, "is returned to the caller", None
                continue
            if isinstance(up, (ast.Assign, ast.AnnAssign)):
                ts = up.targets if isinstance(up, ast.Assign) else [up.target]
                for t in ts:
                    if isinstance(t, (ast.Attribute, ast.Subscript)):
                        yield up, "is stored without a copy", None
                continue
            if isinstance(up, ast.keyword) or isinstance(up, ast.Call) and n in up.args:
                call = par.get(up) if isinstance(up, ast.keyword) else up
                f = call.func
                fname = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                if fname in COPYING:
                    continue
                if fname == "setattr":
                    yield call, "is stored without a copy", None
                    continue
                r = P.resolve(m.name, f.id) if isinstance(f, ast.Name) else None
                tgt = callee(P, r)
                if tgt is not None:
                    tm, tf, off = tgt
                    a = tf.args
                    pos = [x.arg for x in a.posonlyargs + a.args][off:]
                    if isinstance(up, ast.keyword):
                        q = up.arg
                    else:
                        i = call.args.index(n)
                        q = pos[i] if i < len(pos) else None
                    if q and q in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]:
                        yield call, "", (tm, tf, q)
                elif isinstance(f, ast.Attribute) and f.attr in ("append", "add", "insert", "setdefault"):
                    yield call, "is stored in a collection without a copy", None
            if isinstance(up, (ast.Dict,)) and any(v is n for v in up.values):
                # a settings dictionary keeps the object
                yield up, "is stored without a copy", None


def callee(P, r):
    if not r:
        return None
    kind = r[0] if isinstance(r, tuple) else None
    try:
        if kind in ("func", "def"):
            return (r[1], r[2], 0)
        if kind == "class":
            mod, node = r[1], r[2]
            for mm, k in P.mro(mod, node)[0]:
                for st in k.body:
                    if isinstance(st, ast.FunctionDef) and st.name == "__init__":
                        return (mm, st, 1)
    except Exception:
        return None
    return None
