"""Load the package under analysis and resolve names in it.

Python files are parsed with `ast`; Cython files are parsed with the Cython
compiler's own parser and translated to the same node types (see cy.py), so
every later analysis works on one representation.
"""
import ast
import os

REPO = os.environ.get("SA_REPO", "/repo")
PKG = "thinc"


class Module:
    def __init__(self, name, path, tree, is_pkg, kind="py"):
        self.name = name
        self.path = path
        self.rel = os.path.relpath(path, REPO)
        self.tree = tree
        self.is_pkg = is_pkg
        self.kind = kind
        self.defs = {}      # name -> FunctionDef / ClassDef (last definition)
        self.imports = {}   # name -> (module, attr or None)
        self.assigns = {}   # name -> [value expr]
        self.stars = []
        if tree is not None:
            self._index(tree.body)

    def _index(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                self.defs[st.name] = st
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.imports[a.asname] = (a.name, None)
                    else:
                        self.imports[a.name.split(".")[0]] = (a.name.split(".")[0], None)
            elif isinstance(st, ast.ImportFrom):
                base = self.rel_base(st)
                for a in st.names:
                    if a.name == "*":
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = (base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.assigns.setdefault(t.id, []).append(st.value)
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    self.assigns.setdefault(st.target.id, []).append(st.value)
            elif isinstance(st, ast.If):
                self._index(st.body)
                self._index(st.orelse)
            elif isinstance(st, ast.Try):
                # Definitions made in a handler are fall-backs: index them
                # first, so that the definitions of the body win.
                for h in st.handlers:
                    self._index(h.body)
                self._index(st.body)
                self._index(st.orelse)
                self._index(st.finalbody)
            elif isinstance(st, ast.With):
                self._index(st.body)

    def rel_base(self, st):
        if not st.level:
            return st.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        up = st.level - 1
        if up:
            parts = parts[:-up]
        return ".".join(parts + ([st.module] if st.module else []))


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.errors = []
        root = os.path.join(self.repo, PKG)
        for dp, dns, fns in os.walk(root):
            dns[:] = sorted(d for d in dns if d not in ("tests", "__pycache__"))
            for fn in sorted(fns):
                p = os.path.join(dp, fn)
                rel = os.path.relpath(p, self.repo)
                if fn.endswith(".py"):
                    name = rel[:-3].replace(os.sep, ".")
                    is_pkg = fn == "__init__.py"
                    if is_pkg:
                        name = name[: -len(".__init__")]
                    with open(p, encoding="utf8") as f:
                        src = f.read()
                    self.modules[name] = Module(name, p, ast.parse(src, p), is_pkg)
                elif fn.endswith(".pyx"):
                    name = rel[:-4].replace(os.sep, ".")
                    from . import cy
                    try:
                        tree = cy.parse_pyx(p, name)
                    except Exception as e:  # reported by the caller
                        self.errors.append((rel, repr(e)))
                        continue
                    self.modules[name] = Module(name, p, tree, False, kind="pyx")
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n):
                    c._parent = n
            for n in ast.walk(m.tree):
                n._mod = m

    # -- name resolution -------------------------------------------------
    def resolve(self, modname, name, seen=None):
        """Resolve a global name of a module to one of
        ("func", Module, node), ("class", Module, node), ("assign", Module, expr),
        ("module", dotted), ("ext", dotted), or None."""
        seen = seen or set()
        if (modname, name) in seen:
            return None
        seen.add((modname, name))
        m = self.modules.get(modname)
        if m is None:
            return ("ext", f"{modname}.{name}")
        if name in m.defs:
            d = m.defs[name]
            return ("class" if isinstance(d, ast.ClassDef) else "func", m, d)
        if name in m.imports:
            base, attr = m.imports[name]
            if attr is None:
                return ("module", base)
            sub = f"{base}.{attr}"
            if base in self.modules:
                r = self.resolve(base, attr, seen)
                if r is not None:
                    return r
                if sub in self.modules:
                    return ("module", sub)
                return ("ext", sub)
            if sub in self.modules:
                return ("module", sub)
            return ("ext", sub)
        if name in m.assigns:
            return ("assign", m, m.assigns[name])
        for base in m.stars:
            r = self.resolve(base, name, seen)
            if r is not None and r[0] != "ext":
                return r
        return None

    def func(self, modname, qual):
        """Find a function or method definition by qualified name."""
        m = self.modules.get(modname)
        if m is None:
            return None
        node = None
        scope = m.tree.body
        for part in qual.split("."):
            node = None
            for st in scope:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)) and st.name == part:
                    node = st
            if node is None:
                return None
            scope = node.body
        return node

    def mro(self, mod, cls):
        """Project-internal linearisation (depth first) plus external bases."""
        out = [(mod, cls)]
        ext = []
        for b in cls.bases:
            nm = b
            while isinstance(nm, ast.Subscript):
                nm = nm.value
            if isinstance(nm, ast.Name):
                r = self.resolve(mod.name, nm.id)
            elif isinstance(nm, ast.Attribute):
                r = ("ext", ast.unparse(nm))
            else:
                r = None
            if r and r[0] == "class":
                o2, e2 = self.mro(r[1], r[2])
                out += [x for x in o2 if x not in out]
                ext += e2
            elif r:
                ext.append(r[1] if isinstance(r[1], str) else "?")
        return out, ext

    def find_method(self, mod, cls, name, skip=0):
        for m, c in self.mro(mod, cls)[0][skip:]:
            hit = None
            for st in c.body:
                if isinstance(st, (ast.FunctionDef,)) and st.name == name:
                    # overloads: take the last definition that is not an overload
                    if any(getattr(d, "id", getattr(d, "attr", "")) == "overload" for d in st.decorator_list):
                        continue
                    hit = st
                elif isinstance(st, (ast.If, ast.Try)):
                    for s2 in ast.walk(st):
                        if isinstance(s2, ast.FunctionDef) and s2.name == name:
                            hit = s2
            if hit is not None:
                return m, c, hit
        return None


def qualname(node):
    parts = []
    n = node
    while n is not None and not isinstance(n, ast.Module):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            parts.append(n.name)
        elif isinstance(n, ast.Lambda):
            parts.append("<lambda>")
        n = getattr(n, "_parent", None)
    return ".".join(reversed(parts))


def where(node, mod=None):
    m = mod or getattr(node, "_mod", None)
    rel = m.rel if m else "?"
    return f"{rel}:{getattr(node, 'lineno', '?')}"
