"""Rules about models as objects: structure, state, copies, serialisation."""
import ast

from .scen import *
from .interp import _unwrap


# ------------------------------------------------------- representative models
def attrs(it, **kw):
    return D(**kw)


def tree(w, tag="", full=True):
    """root(a(s), b(s, a2)), a shared leaf, shims, set and unset everything."""
    N = lambda x: x if full else NONE
    arr = lambda n: distinct(f"arr:{n}{tag}")
    x = {}
    x["sh"] = [distinct(f"shim:{i}{tag}") for i in range(3)]
    x["s"] = w.model("s", dims=D(nO=N(const(3)), nI=NONE), params=D(W=N(arr("Ws")), b=NONE if full else arr("bs")),
                     attrs=D(rate=distinct("rate" + tag), opts=L(distinct("o1" + tag), distinct("o2" + tag))), shims=L(*x["sh"][:2]))
    x["a"] = w.model("a", layers=L(x["s"]), refs=D(inner=N(x["s"]), unset=NONE), params=D(E=N(arr("Ea"))), dims=D(nV=N(const(7))))
    x["c"] = w.model("c", params=D(W=N(arr("Wc")), b=N(arr("bc"))), dims=D(nZ=N(const(0))), attrs=D(rate=distinct("ratec" + tag)), shims=L(x["sh"][2], x["sh"][0]))
    x["b"] = w.model("b", layers=L(x["s"], x["c"]), dims=D(nO=NONE), refs=D(own=NONE))
    x["root"] = w.model("root", layers=L(x["a"], x["b"], x["a"]), refs=D(s=N(x["s"]), c=N(x["c"]), none=NONE, me=NONE), dims=D(nO=N(const(5)), nI=NONE),
                        attrs=D(flag=distinct("flag" + tag)))
    if full:
        w.call(x["root"], "set_ref", const("me"), x["root"])
    x["nodes"] = [x[n] for n in ("root", "a", "b", "s", "c")]
    return x


def by_name(w, nodes):
    return {cval(w.get(n, "name")): n for n in nodes}


class Calls(HeapHooks):
    """Records calls of opaque callables and of methods of opaque objects."""

    def __init__(self):
        super().__init__()
        self.log = []

    def call(self, it, f, args, kw, e):
        if isinstance(f, Term) and f.op == "sym" and str(f.args[0]).startswith(("opt", "wrap", "fn:")):
            self.log.append((f.args[0], args, kw, e))
            if str(f.args[0]).startswith("opt"):
                a = tuple(it.freeze(x) for x in list(args) + [v for _, v in kw])
                return it.mktuple([mk("call", "updated", a, ()), mk("call", "cleared", a, ())])
        if isinstance(f, Term) and f.op == "attr" and isinstance(f.args[0], Term) and f.args[0].op == "sym" and str(f.args[0].args[0]).startswith(("shim:", "ops:")):
            self.log.append((f.args[0].args[0], f.args[1], args, kw, e))
            if f.args[1] == "copy":
                return mk("call", "shimcopy", (f.args[0],), ())
        return super().call(it, f, args, kw, e)


# --------------------------------------------------------------------- walking
def rule_walk(P, ck):
    ck.rule("walk", "walk() visits every node reachable through the layers exactly once, in each order: level by level, parents before children, "
            "or children before parents; nodes shared between layers are visited once.", 6)
    R = Rules(P, ck)

    def orders(w, x):
        nodes = x["nodes"]
        for order in (None, "bfs", "dfs_pre", "dfs_post"):
            got = w.walk(x["root"], order)
            o = order or "default"
            w.req(all(isinstance(g, Obj) for g in got), f"{o} objects", f"walk(order={o}) yields something that is not a node")
            w.req(len(got) == len({id(g) for g in got}), f"{o} once", f"walk(order={o}) yields a node twice: {show_l(got)}")
            w.req({id(g) for g in got} == {id(n) for n in nodes}, f"{o} complete", f"walk(order={o}) does not reach every node: {show_l(got)}")
            pos = {id(g): i for i, g in enumerate(got)}
            for n in nodes:
                for k in w.seq(w.get(n, "layers")):
                    if id(n) in pos and id(k) in pos and order in ("dfs_pre", "dfs_post"):
                        first = n if order == "dfs_pre" else k
                        if order == "dfs_pre":
                            # in a graph with shared nodes the first visit comes through some parent
                            continue
                        w.req(pos[id(first)] < pos[id(n)], f"{o} order", f"walk(order={o}) does not put children before their parents")
            if got and isinstance(got[0], Obj):
                root = x["root"]
                w.req((got[-1] if order == "dfs_post" else got[0]) is root, f"{o} root", f"walk(order={o}) does not {'end' if order == 'dfs_post' else 'start'} with the model itself")
            want = reference_order(w, x["root"], order or "bfs")
            w.req([id(g) for g in got] == [id(g) for g in want], f"{o} sequence",
                  f"walk(order={o}) gives {show_names(w, got)} instead of {show_names(w, want)}")

    R.scenario("walk", "thinc.model", "Model.walk", "shared nodes", lambda w, t: orders(w, tree(w)))

    def deep(w, t):
        l1, l2, l3 = w.model("l1"), w.model("l2"), w.model("l3")
        m1 = w.model("m1", layers=L(l1, l2))
        m2 = w.model("m2", layers=L(m1, l3, l1))
        m3 = w.model("m3", layers=L(l2, m2))
        r = w.model("r", layers=L(m3, m1, l3))
        orders(w, {"root": r, "nodes": [r, m3, m2, m1, l1, l2, l3]})
    R.scenario("walk", "thinc.model", "Model.walk", "nested shared nodes", deep)

    def bad(w, t):
        x = tree(w)
        w.req(R.raises(w, lambda: w.walk(x["root"], "nonsense"), ["ValueError"]), "invalid", "walk() accepts an unknown order")
    R.scenario("walk", "thinc.model", "Model.walk", "unknown order", bad)


def show_names(w, ns):
    return [cval(w.get(n, "name")) if isinstance(n, Obj) else show(n) for n in ns]


def reference_order(w, root, order):
    seen, out = set(), []
    kids = lambda n: w.seq(w.get(n, "layers"))
    if order == "bfs":
        q = [root]
        for n in q:
            if id(n) in seen:
                continue
            seen.add(id(n))
            out.append(n)
            q.extend(kids(n))
        return out

    def go(n):
        seen.add(id(n))
        if order == "dfs_pre":
            out.append(n)
        for k in kids(n):
            if id(k) not in seen:
                go(k)
        if order == "dfs_post":
            out.append(n)
    go(root)
    return out


def rule_whole_model(P, ck):
    ck.rule("whole-model", "Operations on a whole model (finish_update, get_gradients, set_dropout_rate, change_attr_values, device transfer, "
            "remove_node, replace_node, wrap_model_recursive) act on every node exactly once, however deep and however often it is shared.", 12)
    R = Rules(P, ck)

    def grads(w, x):
        w.call(x["s"], "inc_grad", const("W"), distinct("arr:gWs"))
        w.call(x["c"], "inc_grad", const("W"), distinct("arr:gWc"))
        w.call(x["c"], "inc_grad", const("b"), distinct("arr:gbc"))
        return {(x["s"], "W"), (x["c"], "W"), (x["c"], "b")}

    def finish(w, t):
        x = tree(w)
        want = grads(w, x)
        before = {(n, p): (w.call(n, "get_param", const(p)), w.call(n, "get_grad", const(p))) for n, p in want}
        untouched = w.call(x["a"], "get_param", const("E"))
        opt = distinct("opt")
        w.call(x["root"], "finish_update", opt)
        calls = [c for c in w.it.hooks.log if c[0] == "opt"]
        for n, p in want:
            key = w.it.mktuple([w.get(n, "id"), const(p)])
            nm = f"{cval(w.get(n, 'name'))}.{p}"
            mine = [c for c in calls if c[1] and c[1][0] is key]
            w.req(len(mine) == 1, f"update {nm}", f"finish_update calls the optimizer {len(mine)} times for the parameter {nm} with the key (node id, name)")
            for c in mine:
                args = list(c[1]) + [v for _, v in c[2]]
                w.req(len(args) >= 3 and args[1] is before[(n, p)][0] and args[2] is before[(n, p)][1], f"args {nm}",
                      f"the optimizer does not get the parameter and gradient of {nm}", c[3])
            now = w.call(n, "get_param", const(p))
            ok = isinstance(now, Term) and now.op == "call" and now.args[0] == "updated" and now.args[1][0] is key
            w.req(ok, f"stored {nm}", f"the updated value of {nm} is not stored (the parameter is now {show(now)})")
        w.req(len(calls) == len(want), "no more", f"finish_update calls the optimizer {len(calls)} times for {len(want)} gradients")
        w.req(w.call(x["a"], "get_param", const("E")) is untouched, "no gradient", "finish_update changes a parameter that has no gradient")
        for sh in x["sh"]:
            n = [c for c in w.it.hooks.log if c[0] == sh.args[0] and c[1] == "finish_update"]
            w.req(len(n) == 1 and n[0][2] and n[0][2][0] is opt, "shims", f"finish_update updates a shim {len(n)} times")
    R.scenario("whole-model", "thinc.model", "Model.finish_update", "update", finish, Calls)

    def get_gradients(w, t):
        x = tree(w)
        want = grads(w, x)
        g = w.mapping(w.call(x["root"], "get_gradients"))
        keys = {w.it.mktuple([w.get(n, "id"), const(p)]): (n, p) for n, p in want}
        w.req(g is not None and set(g) == set(keys), "keys", "get_gradients does not return exactly the parameters that have a gradient")
        for k, (n, p) in keys.items():
            v = (g or {}).get(k)
            items = w.seq(v) if v is not None else []
            w.req(len(items) == 2 and items[0] is w.call(n, "get_param", const(p)) and items[1] is w.call(n, "get_grad", const(p)), "values",
                  "get_gradients does not return (parameter, gradient) of each node")
    R.scenario("whole-model", "thinc.model", "Model.get_gradients", "collect", get_gradients, Calls)

    def dropout(w, t):
        x = tree(w)
        before = w.deep(x["root"])
        v = distinct("newrate")
        r = w.func("thinc.model", "set_dropout_rate", x["root"], v, attrs=L(const("rate")))
        after = w.deep(x["root"])
        w.req(r is x["root"], "returns", "set_dropout_rate does not return the model")
        for i, st in after.items():
            for k, val in st.items():
                if k == "attr rate":
                    w.req(val is v, "set", f"set_dropout_rate does not reach the node {show(st['name'])}")
                elif k in before[i]:
                    w.req(ident(val, before[i][k]), "else", f"set_dropout_rate changes {k} of {show(st['name'])}")
            w.req(set(st) == set(before[i]), "new", "set_dropout_rate adds an attribute to a node that did not have it")
    R.scenario("whole-model", "thinc.model", "set_dropout_rate", "reach", dropout, Calls)

    def change(w, t):
        x = tree(w)
        before = w.deep(x["root"])
        v = distinct("newrate")
        mp = D(s=D(rate=v, other=distinct("zz")), c=D(rate=v), nobody=D(rate=v))
        w.func("thinc.model", "change_attr_values", x["root"], mp)
        after = w.deep(x["root"])
        for i, st in after.items():
            hit = cval(st["name"]) in ("s", "c")
            for k, val in st.items():
                if k == "attr rate" and hit:
                    w.req(val is v, "set", f"change_attr_values does not reach the node {show(st['name'])}")
                elif k in before[i]:
                    w.req(ident(val, before[i][k]), "else", f"change_attr_values changes {k} of {show(st['name'])}")
            w.req(set(st) == set(before[i]), "new", "change_attr_values adds an attribute the node did not have")
    R.scenario("whole-model", "thinc.model", "change_attr_values", "reach", change, Calls)

    def device(w, t):
        x = tree(w)
        grads(w, x)
        before = w.deep(x["root"])
        ops = distinct("ops:new")
        w.call(x["root"], "_to_ops", ops)
        for i, st in w.deep(x["root"]).items():
            n = show(st["name"])
            w.req(st["ops"] is ops, "ops", f"the ops of the node {n} are not replaced")
            for k, v in st.items():
                if k.startswith(("param ", "grad ")) and before[i][k] is not NONE:
                    moved = isinstance(v, Term) and v.op == "call" and any(a is ops for a in v.args[1]) and before[i][k] in v.args[1]
                    w.req(moved, k.split()[0], f"{k} of the node {n} is not moved to the new device (it is {show(v)})")
        for sh in x["sh"]:
            c = [c for c in w.it.hooks.log if c[0] == sh.args[0] and c[1] == "to_device"]
            w.req(c and all(len(k[2]) == 2 for k in c), "shims", f"a shim is moved {len(c)} times")
    R.scenario("whole-model", "thinc.model", "Model._to_ops", "move", device, Calls)

    def remove(w, t):
        x = tree(w)
        w.call(x["root"], "remove_node", x["s"])
        left = w.walk(x["root"])
        w.req(all(n is not x["s"] for n in left), "gone", "a removed node is still reachable")
        w.req({id(n) for n in left} == {id(x[n]) for n in ("root", "a", "b", "c")}, "others", "removing a node removes others")
        w.req(len(w.seq(w.get(x["root"], "layers"))) == 3, "siblings", "removing a node removes layers of another node")
        for n in left:
            for r in w.names(w.get(n, "ref_names")):
                v = w.call(n, "maybe_get_ref", const(r))
                w.req(v is not x["s"], "refs", f"the reference {r} still points to the removed node")
        w.req(w.call(x["root"], "maybe_get_ref", const("c")) is x["c"], "keep", "removing a node clears a reference to another node")
        z = tree(w)
        w.call(z["root"], "remove_node", z["a"])
        w.req(w.seq(w.get(z["root"], "layers")) == [z["b"]], "duplicate", "a node that occurs twice among the layers of a parent is still there after it was removed")
        w.req(w.call(z["root"], "maybe_get_ref", const("s")) is z["s"], "keep below", "removing a node clears a reference to a node that is still part of the model")
        # a node that only hangs below the removed one
        y = tree(w)
        w.call(y["root"], "remove_node", y["b"])
        w.req(w.call(y["root"], "maybe_get_ref", const("c")) is NONE, "dangling", "a reference to a node below the removed one is left dangling")
        w.req(w.call(y["root"], "maybe_get_ref", const("s")) is y["s"], "keep shared", "removing one parent of a shared node clears the references to it")
    R.scenario("whole-model", "thinc.model", "Model.remove_node", "remove", remove, Calls)

    def replace(w, t):
        x = tree(w)
        new = w.model("new", layers=L(w.model("newchild")))
        r = w.call(x["root"], "replace_node", x["s"], new)
        w.req(r is TRUE, "returns", f"replace_node returns {show(r)} for a node of the model")
        w.req(w.seq(w.get(x["a"], "layers"))[0] is new and w.seq(w.get(x["b"], "layers"))[0] is new, "all", "replace_node does not replace every occurrence")
        w.req(w.seq(w.get(x["b"], "layers"))[1:] == [x["c"]], "others", "replace_node changes other layers")
        w.req(w.call(x["a"], "maybe_get_ref", const("inner")) is new and w.call(x["root"], "maybe_get_ref", const("s")) is new, "refs", "replace_node leaves a reference to the old node")
        w.req(w.call(x["root"], "maybe_get_ref", const("c")) is x["c"], "keep", "replace_node changes a reference to another node")
        before = w.deep(x["root"])
        r = w.call(x["root"], "replace_node", w.model("absent"), w.model("new2"))
        w.req(r is FALSE, "absent", f"replace_node returns {show(r)} for a node that is not part of the model")
        w.req(diff({str(k): v for k, v in before.items()}, {str(k): v for k, v in w.deep(x["root"]).items()}) is None, "absent unchanged", "replace_node of an absent node changes the model")
    R.scenario("whole-model", "thinc.model", "Model.replace_node", "replace", replace, Calls)

    def replace_by_sibling(w, t):
        x = tree(w)
        w.call(x["root"], "replace_node", x["s"], x["c"])
        w.req(w.seq(w.get(x["b"], "layers")) == [x["c"], x["c"]], "sibling", "replace_node by another layer of the same node does not replace every occurrence")
        w.req(w.seq(w.get(x["a"], "layers")) == [x["c"]], "elsewhere", "replace_node by a node of the model does not replace every occurrence")
        w.req(w.call(x["a"], "maybe_get_ref", const("inner")) is x["c"] and w.call(x["root"], "maybe_get_ref", const("s")) is x["c"], "refs", "replace_node leaves a reference to the old node")
    R.scenario("whole-model", "thinc.model", "Model.replace_node", "replace by a node of the model", replace_by_sibling, Calls)

    def wrap(w, t):
        x = tree(w)
        hooks = w.it.hooks
        made = {}

        def wrapper(it, f, args, kw, e):
            n = _unwrap(args[0])
            m = w.model("wrap " + cval(w.get(n, "name")), layers=L(n))
            made.setdefault(id(n), []).append(m)
            return m
        old = hooks.call
        hooks.call = lambda it, f, args, kw, e: wrapper(it, f, args, kw, e) if isinstance(f, Term) and f.op == "sym" and f.args[0] == "wrapper" else old(it, f, args, kw, e)
        r = w.func("thinc.model", "wrap_model_recursive", x["root"], distinct("wrapper"))
        for n in x["nodes"]:
            nm = cval(w.get(n, "name"))
            if n is x["root"]:
                w.req(id(n) in made and r in made[id(n)], "root", "wrap_model_recursive does not return the wrapped model")
            else:
                w.req(len(made.get(id(n), [])) == 1, "once", f"wrap_model_recursive wraps the node {nm} {len(made.get(id(n), []))} times")
            for k in w.seq(w.get(n, "layers")):
                w.req(any(k is m for ms in made.values() for m in ms), "all", f"a layer of {nm} is not wrapped")
    R.scenario("whole-model", "thinc.model", "wrap_model_recursive", "wrap", wrap, Calls)


# ---------------------------------------------------------------------- copies
def rule_copy(P, ck):
    ck.rule("copy", "copy() duplicates every node, parameter, gradient, dimension, attribute, reference, shim and the sharing between layers; "
            "nothing mutable is shared with the original, and changing the copy leaves the original as it was.", 25)
    R = Rules(P, ck)

    def body(w, t):
        x = tree(w)
        w.call(x["s"], "inc_grad", const("W"), distinct("arr:gWs"))
        w.call(x["root"], "set_ref", const("none"), NONE)
        old = w.walk(x["root"])
        before = w.deep(x["root"])
        c = _unwrap(w.call(x["root"], "copy"))
        new = w.walk(c)
        after = w.deep(x["root"])
        w.req(diff(strkeys(before), strkeys(after)) is None, "source unchanged", f"copying changes the original: {diff(strkeys(before), strkeys(after))}")
        if not w.req(len(old) == len(new), "nodes", f"a model of {len(old)} nodes is copied to one of {len(new)} (sharing of layers is lost or nodes are missing)"):
            return
        m = {id(a): b for a, b in zip(old, new)}
        ids = [w.get(n, "id") for n in old + new]
        w.req(len({cval(i) if is_const(i) else id(i) for i in ids}) == len(ids), "ids", "a copied node has the id of another node")
        for a, b in zip(old, new):
            sa, sb = before[a.id], w.state(b)
            nm = cval(w.get(a, "name"))
            w.req(not any(b is n for n in old), "fresh", f"the node {nm} is shared with the copy")
            w.req(set(sa) == set(sb), "state names", f"the copy of {nm} differs in what it holds: {sorted(set(sa) ^ set(sb))[:4]}")
            for k in sa:
                if k not in sb or k == "id":
                    continue
                v, c2 = sa[k], sb[k]
                kd = k.split()[0]
                if kd in ("layer", "ref"):
                    w.req(c2 is (m.get(id(v)) if v is not NONE else NONE), kd, f"{k} of the copy of {nm} is {show(c2)}, not the copy of {show(v)}")
                elif kd in ("param", "grad"):
                    if v is NONE:
                        w.req(c2 is NONE, kd, f"{k} of the copy of {nm} is set although the original is not")
                        continue
                    val, cp = strip(c2)
                    w.req(val is strip(v)[0], kd, f"{k} of the copy of {nm} is {show(c2)}")
                    w.req(c2 is not v and cp, kd + " own", f"{k} of the copy of {nm} is the same array as the original's")
                elif kd == "attr":
                    w.req(same(v, c2), kd, f"{k} of the copy of {nm} is {show(c2)}")
                    w.req(not isinstance(v, Obj) or v is not c2, "attr own", f"{k} of the copy of {nm} is the same object as the original's")
                elif kd == "shim":
                    w.req(isinstance(c2, Term) and c2.op == "call" and c2.args[0] == "shimcopy" and c2.args[1][0] is v, kd, f"{k} of the copy of {nm} is {show(c2)}, not a copy of the shim")
                else:
                    w.req(ident(v, c2), kd, f"{k} of the copy of {nm} is {show(c2)} instead of {show(v)}")
        # independence
        cs = by_name(w, new)
        w.call(cs["s"], "set_param", const("W"), distinct("arr:other"))
        w.call(cs["s"], "inc_grad", const("W"), distinct("arr:gother"))
        w.call(cs["s"], "set_dim", const("nI"), const(11))
        w.it.setitem(w.get(cs["root"], "attrs"), const("flag"), distinct("otherflag"), w.node)
        w.it.setitem(w.get(cs["root"], "attrs"), const("added"), distinct("added"), w.node)
        w.call(w.get(cs["a"], "layers"), "append", cs["c"])
        w.call(cs["root"], "set_ref", const("s"), NONE)
        w.call(w.get(cs["s"], "shims"), "pop")
        w.call(w.get(w.mapping(w.get(cs["s"], "attrs"))["opts"], "self") if False else w.mapping(w.get(cs["s"], "attrs"))["opts"], "append", distinct("more"))
        d = diff(strkeys(before), strkeys(w.deep(x["root"])))
        w.req(d is None, "independent", f"changing the copy changes the original: {d}")
    R.scenario("copy", "thinc.model", "Model.copy", "copy", body, Calls)

    def leaf(w, t):
        # a copy of a part of a model: references that point outside of it
        x = tree(w)
        c = _unwrap(w.call(x["b"], "copy"))
        w.req(len(w.walk(c)) == 3, "part", "copying part of a model does not copy exactly its nodes")
        ids = [cval(w.get(n, "id")) for n in w.walk(c) + x["nodes"]]
        w.req(len(set(ids)) == len(ids), "part ids", "a node of the copied part has the id of another node")
        c2 = _unwrap(w.call(x["b"], "copy"))
        w.req(not ({id(n) for n in w.walk(c2)} & {id(n) for n in w.walk(c)}), "twice", "two copies of the same model share nodes")
    R.scenario("copy", "thinc.model", "Model.copy", "part of a model", leaf, Calls)

    def shimcopy(w, t):
        it = w.it
        m = P.modules["thinc.shims.shim"]
        sh = it.call(Class(m, m.defs["Shim"]), [distinct("framework")], [("config", D(k=distinct("cfg"))), ("optimizer", distinct("optimizer"))], w.node)
        a = _unwrap(sh)
        before = dict(a.fields)
        b = _unwrap(w.call(a, "copy"))
        w.req(b is not a and w.get(b, "id") is not w.get(a, "id"), "shim id", "a copied shim keeps the id of the original, so that they share optimizer state")
        w.req(diff(before, dict(a.fields)) is None, "shim source", "copying a shim changes it")
        w.req(isinstance(w.get(b, "cfg"), Obj) and w.get(b, "cfg") is not w.get(a, "cfg") and same(w.get(a, "cfg"), w.get(b, "cfg")), "shim cfg", "the configuration of a copied shim is not a copy")
        w.req(strip(b.fields.get("_model"))[0] is a.fields.get("_model") and strip(b.fields.get("_model"))[1], "shim model", "the wrapped model of a copied shim is not a copy")
    R.scenario("copy", "thinc.shims.shim", "Shim.copy", "copy", shimcopy, Calls)


def strkeys(d):
    return {str(k): v for k, v in d.items()}


# --------------------------------------------------------------- serialisation
def rule_serialize(P, ck):
    ck.rule("round-trip", "Reading what to_dict / to_bytes / to_disk wrote restores names, dimensions, references, attributes, parameters and "
            "shims of every node, into arrays of the reading model's own; parameters that were unset are unset again.", 20)
    ck.rule("reject", "Data that does not fit the model is rejected, before anything is changed, and can_from_* tells whether it fits.", 8)
    R = Rules(P, ck)

    def compare(w, x, y):
        src, dst = w.walk(x["root"]), w.walk(y["root"])
        m = {id(a): b for a, b in zip(src, dst)}
        for a, b in zip(src, dst):
            sa, sb = w.state(a), w.state(b)
            nm = cval(sa["name"])
            for k, v in sa.items():
                kd = k.split()[0]
                c = sb.get(k)
                if kd == "name":
                    w.req(c is v, "name", f"the name of {nm} is read as {show(c)}")
                elif kd == "dim":
                    if v is not NONE:
                        w.req(c is v, "dim", f"{k} of {nm} is read as {show(c) if c else 'nothing'} instead of {show(v)}")
                elif kd == "ref":
                    w.req(c is (m.get(id(v)) if v is not NONE else NONE), "ref", f"{k} of {nm} is read as {show(c) if c else 'nothing'}")
                elif kd == "attr":
                    w.req(c is not None and same(v, c), "attr", f"{k} of {nm} is read as {show(c) if c else 'nothing'} instead of {show(v)}")
                elif kd == "param":
                    if v is NONE:
                        w.req(c is NONE, "param unset", f"{k} of {nm} is unset in what was written but still set after reading")
                        continue
                    w.req(c is not None and strip(c)[0] is v, "param", f"{k} of {nm} is read as {show(c) if c else 'nothing'} instead of {show(v)}")
                    w.req(c is not v, "param own", f"{k} of {nm} is the very array of the other model after reading")
        for i, sh in enumerate(x["sh"]):
            got = [c for c in w.it.hooks.log if c[0] == y["sh"][i].args[0] and c[1] == "from_bytes"]
            ok = got and all(isinstance(g[2][0], Term) and g[2][0].op == "call" and sh in g[2][0].args[1] and short(g[2][0].args[0]) == "to_bytes" for g in got)
            w.req(ok, "shim", f"shim {i} does not read exactly what the corresponding shim wrote")

    def target(w):
        y = tree(w, "2", full=False)
        w.call(y["c"], "set_param", const("b"), distinct("arr:old b"))
        return y

    def via(write, read, wrap=None):
        def body(w, t):
            x, y = tree(w), target(w)
            before = w.deep(x["root"])
            where = distinct("path")
            if wrap:
                w.call(x["root"], write, where)
                r = w.call(y["root"], read, where)
            else:
                data = w.call(x["root"], write)
                d = diff(strkeys(before), strkeys(w.deep(x["root"])))
                w.req(d is None, "source", f"{write} changes the model: {d}")
                r = w.call(y["root"], read, data)
            w.req(r is y["root"], "returns", f"{read} does not return the model")
            compare(w, x, y)
            d = diff(strkeys(before), strkeys(w.deep(x["root"])))
            w.req(d is None, "source after", f"reading into another model changes the one that was written: {d}")
            if write != "to_dict":
                les = [c for c in w.it.events if c.kind == "call" and short(c.data["name"]) == "to_numpy"]
                for c in les:
                    bo = dict(c.data["kw"]).get("byte_order")
                    w.req(bo is const("<"), "byte order", f"arrays are written with byte order {show(bo) if bo is not None else 'of the machine'}, not little-endian", c.node)
                w.req(les or True, "written", "")
        return body
    R.scenario("round-trip", "thinc.model", "Model.from_dict", "to_dict and from_dict", via("to_dict", "from_dict"), Calls, clean=soft)
    R.scenario("round-trip", "thinc.model", "Model.from_bytes", "to_bytes and from_bytes", via("to_bytes", "from_bytes"), Calls, clean=soft)
    R.scenario("round-trip", "thinc.model", "Model.from_disk", "to_disk and from_disk", via("to_disk", "from_disk", True), Calls, clean=soft)

    def again(w, t):
        # reading twice into the same model, the second time over set values
        x, y = tree(w), tree(w, "3")
        data = w.call(x["root"], "to_bytes")
        w.call(y["root"], "from_bytes", data)
        compare(w, x, y)
    R.scenario("round-trip", "thinc.model", "Model.from_bytes", "over set values", again, Calls, clean=soft)

    def foreign(w, t):
        x = tree(w)
        w.call(x["root"], "set_ref", const("s"), x["c"])
        w.call(w.get(x["b"], "layers"), "remove", x["c"])
        w.req(R.raises(w, lambda: w.call(x["root"], "to_dict"), ["ValueError"]), "foreign ref", "to_dict accepts a reference to a node outside of the model (it could not be restored)")
    R.scenario("reject", "thinc.model", "Model.to_dict", "reference outside", foreign, Calls, clean=soft)

    def mismatch(w, t):
        x = tree(w)
        msg = w.call(x["root"], "to_dict")
        y = tree(w, "4")
        w.call(w.get(y["root"], "layers"), "append", w.model("extra"))
        before = w.deep(y["root"])
        w.req(R.raises(w, lambda: w.call(y["root"], "from_dict", msg), ["ValueError"]), "structure", "from_dict accepts data of a model with a different number of nodes")
        d = diff(strkeys(before), strkeys(w.deep(y["root"])))
        w.req(d is None, "unchanged", f"rejected data changes the model: {d}")
        w.req(R.raises(w, lambda: w.call(y["root"], "from_dict", D(attrs=L())), ["ValueError"]), "no nodes", "from_dict accepts data without nodes")
        w.req(w.call(y["root"], "can_from_dict", D(attrs=L())) is FALSE, "can no nodes", "can_from_dict accepts data without nodes")
    R.scenario("reject", "thinc.model", "Model.from_dict", "different structure", mismatch, Calls, clean=soft)

    def can(what, change, strict, want, unset=False):
        def body(w, t):
            x = tree(w)
            y = tree(w, "", full=not unset)
            if not unset:
                share_attrs(w, x, y)
            change(w, y)
            before = w.deep(y["root"])
            msg = w.call(x["root"], "to_dict")
            t.ps = True
            r = w.call(y["root"], "can_from_dict", msg, strict=const(strict))
            d = diff(strkeys(before), strkeys(w.deep(y["root"])))
            w.req(d is None, f"{what} pure", f"can_from_dict changes the model: {d}")
            if want is False:
                w.req(r is FALSE or r is NONE, what, f"can_from_dict(strict={strict}) accepts data where {what}")
            else:
                # some path accepts
                t.accepts = r is TRUE
        return body

    def none(w, y):
        pass

    cases = [
        ("the number of nodes differs", lambda w, y: w.call(w.get(y["b"], "layers"), "append", w.model("extra")), False, False),
        ("the number of shims differs", lambda w, y: w.call(w.get(y["c"], "shims"), "append", distinct("shim:9")), False, False),
        ("the number of shims is larger", lambda w, y: w.call(w.get(y["c"], "shims"), "pop"), False, False),
        ("a dimension is unknown to the model", lambda w, y: y["a"].fields["_dims"].items.clear(), False, False),
        ("a parameter is unknown to the model", lambda w, y: drop_param(w, y, "c", "W"), False, False),
        ("a name differs (strict)", lambda w, y: w.it.setattr(y["c"], "name", const("renamed"), w.node), True, False),
        ("nothing differs", none, False, True),
        ("nothing differs (strict)", none, True, True),
        ("only a name differs", lambda w, y: w.it.setattr(y["c"], "name", const("renamed"), w.node), False, True),
    ]
    cases.insert(3, ("a dimension has another value", lambda w, y: set_dim(w, y, "root", "nO", const(6)), False, False))
    for what, change, strict, want in cases:
        ps = R.scenario("reject", "thinc.model", "Model.can_from_dict", what, can(what, change, strict, want), Calls, clean=lambda c: True)
        if want:
            node = find_def(P, "thinc.model", "Model.can_from_dict")
            ck.anchor = "thinc/model.py:Model.can_from_dict"
            ck.instance("reject", f"can_from_dict accepts: {what}")
            if not any(getattr(t, "accepts", False) for t in ps):
                ck.finding("reject", node, f"can_from_dict(strict={strict}) never accepts matching data ({what})", "Model.can_from_dict", key=what)
            ck.anchor = None

    def shapes(w, t):
        # the two models differ in the shape of one parameter only
        y, x = tree(w, "9"), tree(w)
        msg = w.call(x["root"], "to_dict")
        w.it.hooks.shape9 = t.shape9 = w.it.hooks.theirs
        r = w.call(y["root"], "can_from_dict", msg, strict=FALSE)
        if w.it.hooks.theirs == (2, 3):
            t.accepts = r is TRUE
        else:
            w.req(r is FALSE or r is NONE, "shape", f"can_from_dict accepts a parameter of shape (2, 3) for one of shape {w.it.hooks.theirs}")
    for theirs in ((3, 2), (2, 3, 1), (6,), (2, 4), (4, 3), (1, 3), (2, 1), (2, 3)):
        ps = R.scenario("reject", "thinc.model", "Model.can_from_dict", f"a parameter of shape {theirs}", shapes, type("Shapes", (Shapes,), {"theirs": theirs}), clean=lambda c: True)
        if theirs == (2, 3):
            ck.instance("reject", "can_from_dict accepts equal shapes")
            if not any(getattr(t, "accepts", False) for t in ps):
                ck.finding("reject", find_def(P, "thinc.model", "Model.can_from_dict"), "can_from_dict never accepts parameters of equal shapes", "Model.can_from_dict", key="equal shapes")


class Shapes(Calls):
    """Parameters with known shapes: Wc of the model that was saved is (2, 3)."""
    theirs = (2, 3)

    def getattr(self, it, base, name, e):
        b = strip(base)[0] if isinstance(base, Term) else base
        if isinstance(b, Term) and is_array(b) and name in ("shape", "ndim", "size"):
            sh = {"arr:Wc": (2, 3), "arr:Wc9": self.theirs}.get(b.args[0], (4,))
            n = 1
            for d in sh:
                n *= d
            return it.mktuple([const(d) for d in sh]) if name == "shape" else const(len(sh) if name == "ndim" else n)
        return super().getattr(it, base, name, e)


def set_dim(w, y, n, d, v):
    o = y[n].fields["_dims"]
    o.items = [(k, v if k is const(d) else z) for k, z in o.items]


def drop_param(w, y, n, p):
    o = y[n].fields["_has_params"]
    o.items = [(k, v) for k, v in o.items if k is not const(p)]


def share_attrs(w, x, y):
    pass


def soft(c):
    """Conditions under which an exception is no defect."""
    return "msgpack" in c or "serial" in c
