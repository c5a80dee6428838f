"""Abstract interpretation with a heap: the same interpreter, used for code
whose subject is objects and their state (models, optimizers, shims, context
managers) instead of the flow of array values.

Objects have identity, generators and context managers run lazily (so the
order of effects is the order of the program), exceptions select their
handlers, class attributes, module globals and context variables are
locations.  Array values stay uninterpreted terms.
"""
import ast
import threading

from .interp import (Interp, Frame, Func, Partial, Class, Builtin, ModRef, Obj, Term, Stop, Ret, Brk, Cont, Budget, mk, const, NONE, TRUE,
                     FALSE, is_const, cval, _unwrap, _wrap, _has_yield, fmt, explore, qualname)

threading.stack_size(64 << 20)


NONNULL = {"updated", "cleared", "shimcopy", "copy", "deepcopy", "asarray", "asarray_f", "asarray1i", "asarray_i", "to_numpy", "ascontiguousarray", "alloc", "alloc_f", "alloc1f", "alloc2f",
           "msgpack_dumps", "to_bytes", "astype", "get_ops", "get_current_ops", "use_params", "zeros", "ravel", "reshape"}


class GenExit(BaseException):
    pass


class Gen:
    """An abstract generator (its body runs in a coroutine)."""

    def __init__(self, it, start, node=None):
        self.it, self.start, self.node = it, start, node
        self.state = "new"
        self.value = None
        self.exc = None
        self.a, self.b = threading.Semaphore(0), threading.Semaphore(0)
        it.gens.append(self)

    def run(self):
        self.a.acquire()
        try:
            if self.exc is None:
                self.start(self)
            self.exc = None
        except GenExit:
            self.exc = None
        except BaseException as e:
            self.exc = e
        self.state = "done"
        self.b.release()

    def resume(self, exc=None):
        if self.state == "done":
            if exc is not None:
                raise exc
            return False, NONE
        if self.state == "new":
            if exc is not None:
                self.state = "done"
                raise exc
            self.thread = threading.Thread(target=self.run, daemon=True)
            self.thread.start()
        self.exc = exc
        self.state = "running"
        n1, n2 = len(self.it.stack), len(self.it.calls)
        self.a.release()
        self.b.acquire()
        del self.it.stack[n1:], self.it.calls[n2:]
        if self.state == "done":
            e, self.exc = self.exc, None
            if e is not None:
                raise e
            return False, NONE
        return True, self.value

    def yields(self, v, node):
        """Called by the body."""
        self.value = v
        self.state = "suspended"
        keep = (self.node, node)
        self.b.release()
        self.a.acquire()
        self.it.stack.append(keep[0])
        self.it.calls.append(keep[1])
        e, self.exc = self.exc, None
        if e is not None:
            raise e
        return NONE

    def close(self):
        if self.state in ("suspended",):
            try:
                self.resume(GenExit())
            except BaseException:
                pass
        self.state = "done"

    def __repr__(self):
        return "<generator>"


class HeapInterp(Interp):
    MAXREC = 12

    def __init__(self, project, prefix=(), hooks=None):
        super().__init__(project, prefix, hooks)
        self.gens = []
        self.closed = False
        self.cvars = {}
        self.clsattrs = {}
        self.globs = {}
        self.held = []
        self.maxsteps = 400000
        self.live = {}
        self.errors = []
        self.shared = {}
        self.copies = {}
        self.idtab = {}

    def close(self):
        self.closed = True
        for g in self.gens:
            g.close()

    # ------------------------------------------------------------- identity
    def freeze(self, v, seen=()):
        if isinstance(v, Obj) and v.kind == "inst":
            return _wrap(self, v)
        if isinstance(v, Gen):
            return mk("pyobj", _GenRef.of(v))
        return super().freeze(v, seen)

    def same(self, a, b):
        a, b = _unwrap(a), _unwrap(b)
        if isinstance(a, Obj) and isinstance(b, Obj):
            return a is b
        if isinstance(a, Obj) and isinstance(b, Term) and b.op not in ("sym", "attr", "sub", "call", "unknown") or \
                isinstance(b, Obj) and isinstance(a, Term) and a.op not in ("sym", "attr", "sub", "call", "unknown"):
            return False
        if isinstance(a, Term) and isinstance(b, Term):
            if a is b:
                return True
            if a.op == "sym" and b.op == "sym" and a.meta == "distinct" and b.meta == "distinct":
                return False
            if self.distinct(a) and b.op == "const" or self.distinct(b) and a.op == "const":
                return False
        return super().same(a, b)

    def distinct(self, t):
        return t.op == "sym" and t.meta == "distinct"

    def nonnull(self, v):
        if isinstance(v, Term) and self.distinct(v):
            return True
        if isinstance(v, Term) and v.op in ("pyobj", "cvar", "class", "ext", "funcref", "opsfn", "enter"):
            return True
        if isinstance(v, Term) and v.op in ("call", "iop", "bin"):
            f = v.args[0]
            n = f if isinstance(f, str) else f.args[-1] if isinstance(f, Term) and f.op in ("attr", "fn", "ext") and isinstance(f.args[-1], str) else ""
            if v.op != "call" or n.split(".")[-1] in NONNULL:
                return True
        return super().nonnull(v)

    def static_truth(self, v):
        if isinstance(v, Term) and v.op == "pyobj":
            return self.static_truth(v.args[0].v)
        if isinstance(v, Gen):
            return True
        return super().static_truth(v)

    def contains(self, seq, x):
        seq = _unwrap(seq)
        if isinstance(seq, Gen):
            while True:
                ok, v = seq.resume()
                if not ok:
                    return False
                if self.same(v, x):
                    return True
        if isinstance(seq, Obj) and seq.kind in ("set", "list") and not seq.open:
            for y in seq.items:
                s = self.same(y, x)
                if s is None:
                    if self.freeze(y) is self.freeze(x):
                        return True
                    return super().contains(seq, x)
                if s:
                    return True
            return False
        if isinstance(seq, Obj) and seq.kind == "dict" and not seq.open:
            fx = self.freeze(x)
            und = False
            for k, _ in seq.items:
                if k is fx:
                    return True
                if self.diff(k, fx) is None:
                    und = True
            return None if und else False
        return super().contains(seq, x)

    def diff(self, a, b):
        """True if two keys are certainly different; None if unknown."""
        if a is b:
            return False
        if isinstance(a, Term) and isinstance(b, Term):
            if a.op == "const" and b.op == "const":
                return True
            if a.op == "tuple" and b.op == "tuple":
                if len(a.args) != len(b.args):
                    return True
                rs = [self.diff(x, y) for x, y in zip(a.args, b.args)]
                if any(r is True for r in rs):
                    return True
                return None
            for x, y in ((a, b), (b, a)):
                if x.op == "tuple" and y.op == "const" and not isinstance(cval(y), tuple):
                    return True
            if {a.op, b.op} <= {"const", "sym", "pyobj", "class"} and all(self.distinct(x) or x.op != "sym" for x in (a, b)):
                return True
        return None

    def compare(self, op, a, b):
        a, b = _unwrap(a), _unwrap(b)
        if op in ("Eq", "NotEq") and any(isinstance(x, Term) and x.op == "sym" and str(x.args[0]).startswith("arr:") for x in (a, b)) and not any(
                x is NONE or isinstance(x, Obj) for x in (a, b)):
            return mk("cmp", self.CMPN[op], self.freeze(a), self.freeze(b))     # element by element
        if op in ("Eq", "NotEq") and isinstance(a, Term) and isinstance(b, Term) and not (is_const(a) and is_const(b)):
            d = self.diff(a, b)
            if d is True:
                return const(op == "NotEq")
        r = super().compare(op, a, b)
        if isinstance(r, Term) and r.op == "cmp" and r.args[0] == "<=":
            # one spelling for a comparison and its negation
            return mk("not", mk("cmp", "<", r.args[2], r.args[1]))
        return r

    # --------------------------------------------------------------- globals
    def from_res(self, r, module=None, name=None):
        if r[0] == "assign":
            key = (r[1].name, name)
            if key in self.globs:
                return self.globs[key]
            e = r[2][-1]
            if isinstance(e, ast.Call) and (getattr(e.func, "id", None) == "ContextVar" or getattr(e.func, "attr", None) == "ContextVar"):
                return mk("cvar", r[1].name, name)
            if isinstance(e, (ast.Dict, ast.List, ast.Set)) or isinstance(e, ast.Call) and getattr(e.func, "id", getattr(e.func, "attr", "")) in (
                    "dict", "list", "set", "defaultdict"):
                v = self.ev(e, Frame(None, None, r[1]))
                self.globs[key] = v
                return v
        return super().from_res(r, module, name)

    def cvar_default(self, g):
        m, n = g.args
        e = self.P.modules[m].assigns[n][-1]
        for k in e.keywords:
            if k.arg == "default":
                key = ("cvd",) + g.args
                if key not in self.globs:
                    self.globs[key] = self.ev(k.value, Frame(None, None, self.P.modules[m]))
                return self.globs[key]
        return mk("sym", f"unset:{n}")

    def assign(self, t, v, fr, st):
        if isinstance(t, ast.Name) and t.id in fr.globals:
            self.globs[(fr.module.name, t.id)] = v
            self.event("set_global", st, name=t.id, value=v, module=fr.module.name)
            return
        super().assign(t, v, fr, st)

    # ------------------------------------------------------------ attributes
    def prop(self, base, name, setter=False):
        mod, node = base.cls[1], base.cls[2]
        for m, c in self.P.mro(mod, node)[0]:
            for st in c.body:
                if isinstance(st, ast.FunctionDef) and st.name == name:
                    decs = [ast.unparse(d) for d in st.decorator_list]
                    if setter and f"{name}.setter" in decs:
                        return Func(st, m, None, bound=base, cls=(m, c))
                    if not setter and any(d.split("(")[0].split(".")[-1] in ("property", "cached_property") for d in decs):
                        return Func(st, m, None, bound=base, cls=(m, c))
        return None

    def getattr(self, base, name, e):
        base = _unwrap(base)
        if isinstance(base, Gen):
            return Builtin("gen." + name, base)
        if self.hooks is not None:
            r = self.hooks.getattr(self, base, name, e)
            if r is not None:
                return r
        if isinstance(base, Term) and base.op == "glob" and (base, "." + name) in self.globs:
            return self.globs[(base, "." + name)]
        if isinstance(base, Obj) and base.kind == "inst":
            if name in base.fields:
                return base.fields[name]
            if base.cls[0] == "cls":
                p = self.prop(base, name)
                if p is not None:
                    return self.call(p, [], [], e)
                if name == "__class__":
                    return Class(base.cls[1], base.cls[2])
                if name == "__dict__":
                    o = Obj("dict")
                    o.items = [(const(k), v) for k, v in base.fields.items()]
                    return o
                v = self.clsattr(Class(base.cls[1], base.cls[2]), name)
                if v is not None:
                    return v
            if base.cls[0] in ("exitstack", "ctxmgr", "lock"):
                return Builtin(f"{base.cls[0]}.{name}", base)
        if isinstance(base, Class):
            if name == "__name__":
                return const(base.node.name)
            v = self.clsattr(base, name)
            if v is not None:
                return v
        if isinstance(base, Term) and base.op == "slice" and name in ("start", "stop", "step"):
            return base.args[("start", "stop", "step").index(name)]
        if isinstance(base, Term) and base.op == "cvar":
            return Builtin("cvar." + name, base)
        if isinstance(base, Term) and base.op == "param":
            pass
        return super().getattr(base, name, e)

    sections = 0
    watch = ()

    def lock(self, o):
        self.held.append(o)
        self.sections += 1

    def clsattr(self, c, name):
        if name in self.watch:
            self.event("getcls", c.node, name=name, held=list(self.held), section=self.sections)
        for m, k in self.P.mro(c.module, c.node)[0]:
            key = (m.name, k.name, name)
            if key in self.clsattrs:
                return self.clsattrs[key]
            for st in k.body:
                ts = getattr(st, "targets", [getattr(st, "target", None)]) if isinstance(st, (ast.Assign, ast.AnnAssign)) else []
                if any(getattr(t, "id", None) == name for t in ts) and getattr(st, "value", None) is not None:
                    v = self.ev(st.value, Frame(None, None, m))
                    self.clsattrs[key] = v
                    return v
        return None

    def setattr(self, base, name, v, st, aug=False):
        base = _unwrap(base)
        if isinstance(base, Class):
            key = (base.module.name, base.node.name, name)
            self.clsattrs[key] = v
            self.event("setcls", st, cls=base, name=name, value=v, held=list(self.held), section=self.sections)
            return
        if isinstance(base, Obj) and base.kind == "inst" and base.cls[0] == "cls":
            p = self.prop(base, name, setter=True)
            if p is not None:
                self.call(p, [v], [], st)
                return
        if isinstance(base, Term) and base.op == "glob":
            # an object the module keeps (threading.local() and the like)
            self.globs[(base, "." + name)] = v
        super().setattr(base, name, v, st, aug)

    def setitem(self, base, idx, v, st):
        base = _unwrap(base)
        if isinstance(base, Obj) and base.kind == "inst" and base.cls[0] == "cls":
            mt = self.method(base, "__setitem__")
            if mt is not None:
                self.call(mt, [idx, v], [], st)
                return
        super().setitem(base, idx, v, st)

    def subscript(self, base, idx, e):
        base = _unwrap(base)
        if isinstance(base, Obj) and base.kind == "dict" and base.cls and base.cls[0] == "defaultdict":
            fi = self.freeze(idx)
            for k, v in base.items:
                if k is fi:
                    return v
            fac = base.cls[1]
            if isinstance(fac, Builtin) and fac.name in ("int", "float", "bool"):
                v = const({"int": 0, "float": 0.0, "bool": False}[fac.name])
            else:
                v = self.call(fac, [], [], e)
            base.items.append((fi, v))
            return v
        if isinstance(base, Obj) and base.kind == "dict" and not base.open:
            fi = self.freeze(idx)
            if not any(k is fi for k, _ in base.items) and all(self.diff(k, fi) is True for k, _ in base.items):
                raise Stop(mk("ext", "KeyError"), e)
        if isinstance(base, Obj) and base.kind == "list" and not base.open and is_const(idx) and isinstance(cval(idx), int) \
                and not -len(base.items) <= cval(idx) < len(base.items):
            raise Stop(mk("ext", "IndexError"), e)
        if is_const(base) and isinstance(cval(base), str):
            i = _unwrap(idx)
            if isinstance(i, Term) and i.op == "slice" and all(is_const(x) for x in i.args):
                return const(cval(base)[slice(*[cval(x) for x in i.args])])
            if is_const(i) and isinstance(cval(i), int) and -len(cval(base)) <= cval(i) < len(cval(base)):
                return const(cval(base)[cval(i)])
        return super().subscript(base, idx, e)

    # ------------------------------------------------------------ generators
    def call_func(self, f, args, kw, e):
        if getattr(self.hooks, "opaque_fn", None) and self.hooks.opaque_fn(self, f):
            return self.opaque(mk("fn", qualname(f.node)), ([f.bound] if f.bound is not None else []) + args, kw, e)
        node = f.node
        if self.stack.count(node) >= self.MAXREC or len(self.stack) > 60:
            raise Budget()
        env = self.bind(f, args, kw, e)
        fr = Frame(f.frame, node, f.module)
        fr.vars.update(env)
        if f.cls is not None:
            fr.owner = f.cls
            fr.selfval = f.bound
        if not isinstance(node, ast.Lambda):
            if getattr(node, "_is_gen", None) is None:
                node._is_gen = _has_yield(node) or _yield_expr(node)
            if node._is_gen:
                return self.make_gen(f, node, fr, e)
        self.stack.append(node)
        self.calls.append(e)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            try:
                self.block(node.body, fr)
            except Ret as r:
                return r.v
            return NONE
        finally:
            if self.stack and self.stack[-1] is node:
                self.stack.pop()
                self.calls.pop()

    def make_gen(self, f, node, fr, e):
        def start(g):
            fr.gen = g
            self.stack.append(node)
            self.calls.append(e)
            try:
                self.block(node.body, fr)
            except Ret:
                pass
        g = Gen(self, start, node)
        if any("contextmanager" in ast.unparse(d) for d in node.decorator_list):
            o = Obj("inst", ("ctxmgr",))
            o.gen = g
            o.fnnode = node
            return o
        return g

    def do_yield(self, v, node, fr):
        g = None
        f = fr
        while f is not None:
            g = getattr(f, "gen", None)
            if g is not None:
                break
            f = f.parent
        self.event("yield", node, value=v)
        if g is None:
            return NONE
        r = g.yields(v, node)
        if self.closed:
            raise GenExit()
        return r

    def st_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, fr)

    def ex_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else NONE
        return self.do_yield(v, e, fr)

    def ex_YieldFrom(self, e, fr):
        src = self.ev(e.value, fr)
        for v in self.iterate(src, e):
            self.do_yield(v, e, fr)
        return NONE

    def iterate(self, v, node):
        """Python iterator over the elements of an abstract iterable, live."""
        v = _unwrap(v)
        if isinstance(v, Gen):
            n = 0
            while n < 200:
                ok, x = v.resume()
                if not ok:
                    return
                n += 1
                yield _unwrap(x)
            raise Budget()
        if isinstance(v, Obj) and v.kind == "list":
            i = 0
            while i < len(v.items):
                if i > 200:
                    raise Budget()
                yield _unwrap(v.items[i])
                i += 1
            return
        if isinstance(v, Obj) and v.kind == "inst" and v.cls[0] == "cls":
            mt = self.method(v, "__iter__")
            if mt is not None:
                yield from self.iterate(self.call(mt, [], [], node), node)
                return
        for x in self.iter_values(v, node)[0]:
            yield _unwrap(x)

    def iter_values(self, v, node, splat=False):
        v = _unwrap(v)
        if isinstance(v, Gen) or isinstance(v, Obj) and v.kind == "inst" and v.cls[0] == "cls" and self.method(v, "__iter__") is not None:
            return list(self.iterate(v, node)), False
        if isinstance(v, Term) and v.op == "dict":
            return [a.args[0] for a in v.args], False
        return super().iter_values(v, node, splat)

    def exact_items(self, v):
        if isinstance(v, Gen):
            return list(self.iterate(v, None))
        if isinstance(v, Obj) and v.kind == "set" and not v.open:
            return list(v.items)
        return super().exact_items(v)

    def st_For(self, st, fr):
        it = self.ev(st.iter, fr)
        broke = False
        if isinstance(it, Term) and it.op == "call" and it.args[0] == "range" and not all(is_const(a) for a in it.args[1]):
            return super().st_For(st, fr)
        for x in self.iterate(it, st.iter):
            self.assign(st.target, x, fr, st)
            try:
                self.block(st.body, fr)
            except Brk:
                broke = True
                break
            except Cont:
                continue
        if not broke:
            self.block(st.orelse, fr)

    def comp(self, e, fr, add):
        f2 = Frame(fr, fr.fn, fr.module)

        def rec(gens):
            if not gens:
                add(f2)
                return
            g = gens[0]
            for x in self.iterate(self.ev(g.iter, f2), g.iter):
                self.assign(g.target, x, f2, e)
                if all(self.truth(self.ev(c, f2), c) for c in g.ifs):
                    rec(gens[1:])
        rec(e.generators)

    # -------------------------------------------------------- context managers
    def enter(self, v, node):
        v = _unwrap(v)
        if isinstance(v, Obj) and v.kind == "inst":
            if v.cls[0] == "ctxmgr":
                ok, x = v.gen.resume()
                if not ok:
                    raise Stop(mk("ext", "RuntimeError"), node)
                return x
            if v.cls[0] == "exitstack":
                return v
            if v.cls[0] == "cls":
                mt = self.method(v, "__enter__")
                if mt is not None:
                    return self.call(mt, [], [], node)
            if v.cls[0] == "lock":
                self.lock(v)
                return v
        if isinstance(v, Term):
            self.lock(v)
        self.event("with", node, ctx=v)
        return mk("enter", self.freeze(v))

    def leave(self, v, node, exc):
        """Leave a context; True if the exception is swallowed."""
        v = _unwrap(v)
        if isinstance(v, Obj) and v.kind == "inst":
            if v.cls[0] == "ctxmgr":
                try:
                    ok, _ = v.gen.resume(exc)
                except Stop as s:
                    if s is exc:
                        return False
                    raise
                if ok:
                    raise Stop(mk("ext", "RuntimeError"), node)
                return exc is not None
            if v.cls[0] == "exitstack":
                sw = False
                for x in reversed(v.items):
                    try:
                        if x[0] == "cm":
                            if self.leave(x[1], node, exc):
                                exc = None
                                sw = True
                        else:
                            self.call(x[1], x[2], x[3], node)
                    except Stop as s:
                        exc = s
                        sw = False
                v.items = []
                if exc is not None and not sw:
                    raise exc
                return sw
            if v.cls[0] == "cls":
                mt = self.method(v, "__exit__")
                if mt is not None:
                    r = self.call(mt, [NONE if exc is None else mk("sym", "exctype"), NONE if exc is None else mk("sym", "excvalue"), NONE], [], node)
                    return exc is not None and self.static_truth(r) is True
            if v.cls[0] == "lock":
                if v in self.held:
                    self.held.remove(v)
                return False
        if isinstance(v, Term) and v in self.held:
            self.held.remove(v)
        self.event("endwith", node, ctx=v, exc=exc)
        return False

    def st_With(self, st, fr):
        def rec(i):
            if i == len(st.items):
                self.block(st.body, fr)
                return
            w = st.items[i]
            cm = self.ev(w.context_expr, fr)
            x = self.enter(cm, st)
            if w.optional_vars is not None:
                self.assign(w.optional_vars, x, fr, st)
            try:
                rec(i + 1)
            except Stop as s:
                if not self.leave(cm, st, s):
                    raise
            except (Ret, Brk, Cont):
                self.leave(cm, st, None)
                raise
            else:
                self.leave(cm, st, None)
        rec(0)

    # ------------------------------------------------------------- exceptions
    PARENT = {"KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "ValueError": "Exception",
              "TypeError": "Exception", "AttributeError": "Exception", "RuntimeError": "Exception", "StopIteration": "Exception",
              "NotImplementedError": "RuntimeError", "ImportError": "Exception", "ModuleNotFoundError": "ImportError",
              "AssertionError": "Exception", "OSError": "Exception", "Exception": "BaseException", "ZeroDivisionError": "Exception"}

    def exc_names(self, exc):
        exc = _unwrap(exc)
        if isinstance(exc, Class):
            mro, ext = self.P.mro(exc.module, exc.node)
            out = [c.name for _, c in mro]
            for x in ext:
                out += self.exc_chain(x.split(".")[-1])
            return out
        if isinstance(exc, Obj) and exc.cls and exc.cls[0] == "cls":
            return self.exc_names(Class(exc.cls[1], exc.cls[2]))
        n = None
        if isinstance(exc, Term):
            if exc.op == "ext":
                n = exc.args[0]
            elif exc.op == "call":
                n = exc.args[0] if isinstance(exc.args[0], str) else (exc.args[0].args[0] if exc.args[0].op in ("ext", "builtin") else None)
            elif exc.op == "builtin":
                n = exc.args[0]
        return self.exc_chain(str(n).split(".")[-1]) if n else ["?"]

    def exc_chain(self, n):
        out = [n]
        while n in self.PARENT:
            n = self.PARENT[n]
            out.append(n)
        if out[-1] != "BaseException":
            out += ["Exception", "BaseException"]
        return out

    def handler(self, st, exc, fr):
        names = self.exc_names(exc)
        for h in st.handlers:
            if h.type is None:
                return h
            hs = [x.id if isinstance(x, ast.Name) else getattr(x, "attr", "?") for x in
                  (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            if "?" in names or set(hs) & set(names):
                return h
        return None

    def st_Try(self, st, fr):
        try:
            try:
                self.block(st.body, fr)
            except Stop as s:
                h = self.handler(st, s.exc, fr)
                if h is None:
                    raise
                if h.name:
                    fr.vars[h.name] = s.exc
                fr.cur_exc = s
                self.block(h.body, fr)
            else:
                self.block(st.orelse, fr)
        except BaseException as b:
            if st.finalbody and not isinstance(b, (GenExit, Budget)) and not self.closed:
                self.block(st.finalbody, fr)
            raise
        else:
            if st.finalbody:
                self.block(st.finalbody, fr)

    def st_Raise(self, st, fr):
        if st.exc is None:
            f = fr
            while f is not None:
                s = getattr(f, "cur_exc", None)
                if s is not None:
                    raise s
                f = f.parent
        super().st_Raise(st, fr)

    def st_Assert(self, st, fr):
        c = self.ev(st.test, fr)
        s = self.known(c) if isinstance(c, Term) else self.static_truth(c)
        if s is False:
            raise Stop(mk("ext", "AssertionError"), st)
        super().st_Assert(st, fr)

    # ------------------------------------------------------------------- calls
    def call(self, f, args, kw, e):
        f = _unwrap(f)
        args = [_unwrap(a) for a in args]
        if isinstance(f, Term) and f.op == "attr" and isinstance(f.args[0], Term) and self.raising(f, e):
            self.event("mayraise", e, fn=f)
            raise Stop(mk("ext", "Exception"), e)
        if isinstance(f, Builtin) and f.recv is not None:
            r = self.recv_call(f, args, kw, e)
            if r is not None:
                return r
        return super().call(f, args, kw, e)

    def raising(self, f, e):
        h = getattr(self.hooks, "may_raise", None)
        return h is not None and h(self, f, e)

    def recv_call(self, f, args, kw, e):
        n, o = f.name, f.recv
        if n == "cvar.get":
            return self.cvars.get(o.args) or self.cvar_default(o)
        if n == "cvar.set":
            old = self.cvars.get(o.args)
            self.cvars[o.args] = args[0]
            self.event("cvset", e, var=o, value=args[0])
            t = Obj("inst", ("token",))
            t.old = old
            t.var = o
            return t
        if n == "cvar.reset":
            tok = args[0]
            self.event("cvreset", e, var=o)
            if isinstance(tok, Obj) and hasattr(tok, "old"):
                if tok.var is not o:
                    raise Stop(mk("ext", "ValueError"), e)
                if tok.old is None:
                    self.cvars.pop(o.args, None)
                else:
                    self.cvars[o.args] = tok.old
            else:
                self.cvars[o.args] = mk("unknown", "reset")
            return NONE
        if n == "exitstack.enter_context":
            x = self.enter(args[0], e)
            o.items.append(("cm", args[0]))
            return x
        if n == "exitstack.push":
            o.items.append(("cm", args[0]))
            return args[0]
        if n == "exitstack.callback":
            o.items.append(("cb", args[0], args[1:], kw))
            return args[0]
        if n == "exitstack.close":
            self.leave(o, e, None)
            return NONE
        if n.startswith("gen."):
            m = n[4:]
            if m in ("__next__", "send"):
                ok, v = o.resume()
                if not ok:
                    raise Stop(mk("ext", "StopIteration"), e)
                return v
            if m == "close":
                o.close()
                return NONE
        if n in ("lock.acquire",):
            self.lock(o)
            return TRUE
        if n in ("lock.release",):
            if o in self.held:
                self.held.remove(o)
            return NONE
        return None

    def builtin(self, b, args, kw, e):
        n = b.name
        a0 = args[0] if args else None
        if b.recv is None:
            if n == "id":
                if isinstance(a0, Obj):
                    return const(1000000 + a0.id)
                k = self.freeze(a0)
                if k not in self.idtab:
                    self.idtab[k] = const(2000000 + len(self.idtab))
                return self.idtab[k]
            if n == "iter" and len(args) == 1:
                if isinstance(a0, Gen):
                    return a0
                src = a0

                def start(g):
                    for x in self.iterate(src, e):
                        g.yields(x, e)
                        if self.closed:
                            raise GenExit()
                if not (isinstance(src, Term) and src.op not in ("tuple", "list", "const")):
                    return Gen(self, start, e)
            if n == "next":
                if isinstance(a0, Gen):
                    ok, v = a0.resume()
                    if ok:
                        return _unwrap(v)
                    if len(args) > 1:
                        return args[1]
                    raise Stop(mk("ext", "StopIteration"), e)
                h = getattr(self.hooks, "next_value", None)
                if h is not None:
                    return h(self, a0, e)
                self.serial += 1
                return mk("call", "next", (self.freeze(a0),), (), self.serial)
            if n == "set" and args:
                it = self.exact_items(a0)
                if it is not None:
                    o = Obj("set")
                    for x in it:
                        x = _unwrap(x)
                        if not any(self.same(x, y) or self.freeze(x) is self.freeze(y) for y in o.items):
                            o.items.append(x)
                    return o
            if n == "sorted" and args and not kw:
                it = self.exact_items(a0)
                if it is None and isinstance(a0, Obj) and a0.kind == "dict":
                    it = [k for k, _ in a0.items]
                if it is not None and all(is_const(_unwrap(x)) for x in it):
                    o = Obj("list")
                    try:
                        o.items = [const(x) for x in sorted(cval(_unwrap(x)) for x in it)]
                        return o
                    except TypeError:
                        pass
            if n in ("list", "tuple") and len(args) == 1 and isinstance(a0, Obj) and a0.kind == "inst" and a0.cls[0] == "cls" and self.method(a0, "__iter__") is not None:
                o = Obj("list")
                o.items = list(self.iterate(a0, e))
                return o if n == "list" else self.mktuple(o.items)
            if n == "len" and isinstance(a0, Obj) and a0.kind in ("set", "dict", "list") and not a0.open:
                return const(len(a0.items))
            if n == "vars" and isinstance(a0, Obj):
                return self.getattr(a0, "__dict__", e)
            if n == "getattr" and len(args) > 2 and is_const(args[1]) and isinstance(a0, Obj):
                if cval(args[1]) in a0.fields or self.method(a0, cval(args[1])) is not None:
                    return self.getattr(a0, cval(args[1]), e)
            if n in ("all", "any") and args:
                items = list(self.iterate(a0, e)) if isinstance(a0, (Gen, Obj)) else None
                if items is not None:
                    for x in items:
                        t = self.truth(x, e)
                        if n == "all" and not t:
                            return FALSE
                        if n == "any" and t:
                            return TRUE
                    return const(n == "all")
            if n == "type" and isinstance(a0, Obj) and a0.kind in ("list", "dict", "set"):
                return Builtin(a0.kind)
        return super().builtin(b, args, kw, e)

    def ext_call(self, dotted, args, kw, e):
        last = dotted.split(".")[-1]
        if last == "ExitStack":
            return Obj("inst", ("exitstack",))
        if dotted.startswith("threading.") and last in ("Lock", "RLock"):
            return Obj("inst", ("lock",))
        if dotted == "itertools.count" and all(is_const(a) for a in args) and not kw:
            a = [cval(x) for x in args] + [0, 1][len(args):]

            def counting(g):
                n = a[0]
                while True:
                    g.yields(const(n), e)
                    if self.closed:
                        raise GenExit()
                    n += a[1]
            return Gen(self, counting, e)
        if dotted == "itertools.chain" and any(isinstance(_unwrap(a), Gen) for a in args):
            def chaining(g):
                for src in args:
                    for x in self.iterate(src, e):
                        g.yields(x, e)
                        if self.closed:
                            raise GenExit()
            return Gen(self, chaining, e)
        if dotted == "copy.deepcopy":
            return self.deepcopy(args[0], {}, e)
        if dotted == "copy.copy":
            a = args[0]
            if isinstance(a, Obj):
                return self.shallow(a)
        if last == "defaultdict" and dotted.startswith("collections"):
            o = Obj("dict", ("defaultdict", args[0] if args else NONE))
            return o
        if dotted in ("contextlib.contextmanager", "functools.wraps"):
            return args[0] if dotted.endswith("contextmanager") else mk("ext", "identity")
        if dotted == "identity":
            return args[0]
        return super().ext_call(dotted, args, kw, e)

    def shallow(self, a):
        c = Obj(a.kind, a.cls)
        c.items, c.open, c.fields = list(a.items), a.open, dict(a.fields)
        return c

    def deepcopy(self, v, memo, e):
        v = _unwrap(v)
        if isinstance(v, Obj):
            if v.id in memo:
                return memo[v.id]
            if v.kind == "inst" and v.cls[0] == "cls":
                mt = self.method(v, "__deepcopy__")
                if mt is not None:
                    return self.call(mt, [Obj("dict")], [], e)
            c = Obj(v.kind, v.cls)
            memo[v.id] = c
            if v.kind == "dict":
                c.items = [(k, self.deepcopy(x, memo, e)) for k, x in v.items]
            else:
                c.items = [self.deepcopy(x, memo, e) for x in v.items]
            c.open = v.open
            c.fields = {k: self.deepcopy(x, memo, e) for k, x in v.fields.items()}
            return c
        if isinstance(v, Term):
            if v.op in ("const", "ext", "class", "funcref", "builtin", "cmp"):
                return v
            if v.op == "tuple":
                return self.mktuple([self.deepcopy(x, memo, e) for x in v.args])
            return self.fresh("copy.deepcopy", [v], [], e)
        return v

    def obj_method(self, b, args, kw, e):
        o, n = b.recv, b.name.split(".", 1)[1] if "." in b.name else b.name
        if isinstance(o, Obj) and o.kind == "set":
            if n in ("add", "discard", "remove"):
                hit = [x for x in o.items if self.same(x, args[0]) or self.freeze(x) is self.freeze(args[0])]
                self.event("mutate_obj", e, target=o, how=n, value=args[0])
                if n == "add" and not hit:
                    o.items.append(args[0])
                if n != "add":
                    if not hit and n == "remove":
                        raise Stop(mk("ext", "KeyError"), e)
                    o.items = [x for x in o.items if x not in hit]
                return NONE
            if n == "update":
                for x in self.iterate(args[0], e):
                    if not any(self.freeze(x) is self.freeze(y) for y in o.items):
                        o.items.append(x)
                self.event("mutate_obj", e, target=o, how=n, value=args[0])
                return NONE
            if n == "pop" and o.items:
                return o.items.pop()
            if n == "copy":
                return self.shallow(o)
        if isinstance(o, Obj) and o.kind == "list":
            if n == "extend":
                items = list(self.iterate(args[0], e))
                o.items += items
                self.event("mutate_obj", e, target=o, how="extend", value=args[0])
                return NONE
            if n == "remove":
                self.event("mutate_obj", e, target=o, how=n, value=args[0])
                for i, x in enumerate(o.items):
                    if self.same(x, args[0]):
                        del o.items[i]
                        return NONE
                if not o.open:
                    raise Stop(mk("ext", "ValueError"), e)
                return NONE
            if n == "index":
                for i, x in enumerate(o.items):
                    if self.same(x, args[0]):
                        return const(i)
            if n in ("popleft",):
                if o.items:
                    return o.items.pop(0)
                raise Stop(mk("ext", "IndexError"), e)
            if n in ("appendleft",):
                o.items.insert(0, args[0])
                return NONE
            if n == "count":
                return const(sum(1 for x in o.items if self.same(x, args[0])))
        if isinstance(o, Obj) and o.kind == "dict":
            if n in ("pop", "get", "setdefault"):
                fk = self.freeze(args[0])
                if not o.open and not any(k is fk for k, _ in o.items) and all(self.diff(k, fk) is True for k, _ in o.items):
                    if n == "get":
                        return args[1] if len(args) > 1 else NONE
                    if n == "setdefault":
                        o.items.append((fk, args[1] if len(args) > 1 else NONE))
                        return o.items[-1][1]
                    if len(args) > 1:
                        return args[1]
                    raise Stop(mk("ext", "KeyError"), e)
        return super().obj_method(b, args, kw, e)


class _GenRef:
    _cache = {}

    @classmethod
    def of(cls, g):
        r = cls._cache.get(id(g))
        if r is None or r.v is not g:
            r = cls()
            r.v = g
            cls._cache[id(g)] = r
        return r


def _yield_expr(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return False


def distinct(name):
    """A symbolic value known to differ from None and from every other one."""
    t = mk("sym", name)
    t.meta = "distinct"
    return t


class Scenario:
    """Analyse a sequence of public operations on abstract objects; every
    unknown condition partitions the trace."""

    def __init__(self, P, hooks=None, limit=200):
        self.P, self.hooks, self.limit = P, hooks, limit

    def paths(self, body):
        def run(prefix):
            it = HeapInterp(self.P, prefix, self.hooks() if self.hooks else None)
            t = Trace(it)
            try:
                body(it, t)
            except Stop as s:
                t.stopped = s
            except Budget:
                t.failed = "budget"
            except RecursionError:
                t.failed = "recursion"
            finally:
                it.close()
            return t
        return list(explore(run, self.limit))


class Trace:
    def __init__(self, it):
        self.it = it
        self.events = it.events
        self.stopped = None
        self.failed = None
        self.truncated = False

    @property
    def taken(self):
        return self.it.taken

    def freeze(self, v):
        return self.it.freeze(v)

    def path(self):
        return "; ".join(("" if d else "not ") + fmt(c) for d, c, _ in self.taken)[:260]
