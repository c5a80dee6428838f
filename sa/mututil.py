import ast


def parent_map(root):
    par = {}
    for n in ast.walk(root):
        for c in ast.iter_child_nodes(n):
            par[c] = n
    return par


def rebound_before(fn, name, use):
    """The name is unconditionally bound to something else before the use."""
    body = fn.body if isinstance(fn.body, list) else []
    for st in body:
        if any(x is use for x in ast.walk(st)):
            return False
        if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in st.targets):
            return True
    return False
