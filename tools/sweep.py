"""sweep.py OUT.json N SEED FILE...: sampled one-place changes of the given source files that survive the fast tests, and what the checks say.

Each change is made in a scratch copy. First the fast tests run (a change they notice is of no interest), then the checks,
those likely to notice first, until one reports. What nobody reports is either equivalent or a gap; read it."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("BASE", "/repo")
PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = "/tmp/sweep"
TESTS = ["thinc/tests/layers", "thinc/tests/model", "thinc/tests/shims", "thinc/tests/extra", "thinc/tests/test_initializers.py", "thinc/tests/test_loss.py", "thinc/tests/test_optimizers.py",
         "thinc/tests/test_schedules.py", "thinc/tests/test_serialize.py", "thinc/tests/test_types.py", "thinc/tests/test_util.py", "thinc/tests/backends", "thinc/tests/regression", "thinc/tests/test_examples.py",
         "thinc/tests/test_indexing.py"]


def sites(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()

    def pos(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
    out = []

    def rep(n, new, what):
        a, z = pos(n)
        if b[a:z].decode() != new:
            out.append((a, z, new, what, n.lineno))

    def text(n):
        a, z = pos(n)
        return b[a:z].decode()
    CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is"}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.Pow: "*"}

    def visit(n, infn):
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.args.defaults + n.args.kw_defaults:
                if d is not None and isinstance(d, ast.Constant):
                    visit(d, True)
            for x in n.body:
                visit(x, True)
            return
        if isinstance(n, ast.AnnAssign):
            if n.value:
                visit(n.value, infn)
            return
        if infn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
                rep(n, f"{text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])}", "compare")
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                rep(n, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})", "operator")
            elif isinstance(n, ast.BoolOp):
                rep(n, (" or " if isinstance(n.op, ast.And) else " and ").join(f"({text(v)})" for v in n.values), "and/or")
                for i in range(len(n.values)):
                    rep(n, (" and " if isinstance(n.op, ast.And) else " or ").join(f"({text(v)})" for j, v in enumerate(n.values) if j != i), "drop condition")
            elif isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes, type(None), type(...))):
                if isinstance(n.value, bool):
                    rep(n, str(not n.value), "bool")
                else:
                    rep(n, repr(n.value + 1) if isinstance(n.value, int) else repr(n.value * 1.5 + 0.01), "number")
            elif isinstance(n, (ast.If, ast.IfExp)):
                rep(n.test, f"not ({text(n.test)})", "negate")
            elif isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant) and not isinstance(n.value, ast.Yield):
                rep(n, "pass", "drop call")
            elif isinstance(n, ast.AugAssign):
                rep(n, "pass", "drop update")
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                rep(n, "pass", "drop store")
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and any(isinstance(x, ast.Name) and x.id == n.targets[0].id for x in ast.walk(n.value)):
                rep(n, "pass", "drop rebind")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)) and not isinstance(n.operand, ast.Constant):
                rep(n, f"({text(n.operand)})", "drop sign")
            if isinstance(n, ast.Call):
                ps = [x for x in n.args if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript))]
                for x, y in zip(n.args, n.args[1:]):
                    if x in ps and y in ps:
                        a, z = pos(x)[0], pos(y)[1]
                        out.append((a, z, f"{text(y)}, {text(x)}", "swap arguments", n.lineno))
                for k in n.keywords:
                    if k.arg and len(n.args) + len(n.keywords) > 1:
                        a, z = pos(k)
                        m = z
                        while b[m:m + 1] in b" \n\t":
                            m += 1
                        if b[m:m + 1] == b",":
                            out.append((a, m + 1, "", f"drop {k.arg}=", n.lineno))
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.arg, ast.arguments)) or (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "cast" and n.args and c is n.args[0]):
                continue
            visit(c, infn)
    visit(tree, False)
    good = []
    for a, z, new, what, line in out:
        t = (b[:a] + new.encode() + b[z:]).decode()
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        good.append((a, z, new, what, line))
    return b, good


def order(f):
    ids = [json.loads(l)["id"] for l in open(VERIF + "/properties.jsonl")]
    first = {"layers": "L01 L02 G07 G04 N01 N02 N03 G01 G02 G03 L03 G05 G06", "optimizers": "O03 O02 O04 O01 M02 M07", "loss": "E02 E01", "initializers": "N04 L01 N03", "schedules": "S01 S02 O03 M07",
             "model": "M01 M02 M03 M04 M05 M06 M07 M08 M09 O04 N02", "types": "T01 T02 L03 N01", "ops": "B01 B02 B03 B04 B05 B06 B07 B08 B09 B10 B11 O04 N01 N02", "util": "M04 M02 B09 B10 N01 L03 T02 N03", "shims": "M01 M02 M03 M04 M06 M07",
             "backends/__init__": "M04 B01 B09", "config": "M02 N04", "mem": "B09 M07"}
    pre = []
    for k, v in first.items():
        if k in f:
            pre += v.split()
    return list(dict.fromkeys(pre)) or ids


def one(job):
    i, f, (a, z, new, what, line), stage = job
    d = f"{WORK}/{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", f"{REPO}/thinc", d + "/thinc"])
    for x in ("pyproject.toml", "setup.cfg"):
        if os.path.exists(f"{REPO}/{x}"):
            shutil.copy(f"{REPO}/{x}", d)
    p = f"{d}/{f}"
    b = open(p, "rb").read()
    open(p, "wb").write(b[:a] + new.encode() + b[z:])
    rec = {"file": f, "line": line, "what": what, "old": b[a:z].decode()[:200], "new": new[:200], "ctx": b.decode().splitlines()[line - 1].strip()[:160]}
    env = dict(os.environ, PYTHONPATH=f"{d}:/opt/vp/plugin", PYTHONDONTWRITEBYTECODE="1", HYPOTHESIS_STORAGE_DIRECTORY=d + "/h", OMP_NUM_THREADS="1")
    if stage == "tests":
        ts = [t for t in TESTS if os.path.exists(f"{d}/{t}")]
        try:
            r = subprocess.run([PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "--hypothesis-seed=0", "--timeout=120", "--deselect", "thinc/tests/layers/test_mnist.py", "--ignore", "thinc/tests/mypy", *ts], cwd=d, env=env, capture_output=True, text=True, timeout=600)
            rec["tests"] = r.returncode
        except subprocess.TimeoutExpired:
            rec["tests"] = "timeout"
    else:
        rec["caught"] = None
        try:
            r = subprocess.run([PY, "tools/allchecks.py", *order(f)], cwd=VERIF, env=dict(os.environ, SA_REPO=d, SA_EVIDENCE=d + "/ev"), capture_output=True, text=True, timeout=1500)
            ls = r.stdout.splitlines()
            rec["noanswer"] = [l[9:] for l in ls if l.startswith("NOANSWER")]
            if ls and ls[0].startswith("CAUGHT"):
                rec["caught"], rec["how"] = ls[0].split()[1], ls[0]
            elif not ls:
                rec["noanswer"] = [r.stderr[-200:]]
        except subprocess.TimeoutExpired:
            rec["noanswer"] = ["timeout"]
    shutil.rmtree(d, ignore_errors=True)
    return rec


def main():
    out, n, seed, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    jobs = []
    for f in files:
        for s in sites(f"{REPO}/{f}")[1]:
            jobs.append((f, s))
    random.Random(seed).shuffle(jobs)
    jobs = jobs[:n]
    print(len(jobs), "changes")
    with ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex:
        rs = list(ex.map(one, [(i, f, s, "tests") for i, (f, s) in enumerate(jobs)]))
        live = [(i, f, s, "checks") for i, ((f, s), r) in enumerate(zip(jobs, rs)) if r["tests"] == 0]
        print(len(live), "survive the tests", flush=True)
        rs = []
        for r in ex.map(one, live):
            rs.append(r)
            print("caught " + r["caught"] if r["caught"] else "OPEN  ", f"{r['file']}:{r['line']} {r['what']}: {r['old'][:70]!r} -> {r['new'][:70]!r} | {r['ctx'][:90]}", ("NOANSWER " + str([x[:60] for x in r["noanswer"]])) if r.get("noanswer") else "", flush=True)
            json.dump(rs, open(out, "w"), indent=1)
    print(sum(bool(r["caught"]) for r in rs), "of", len(rs), "reported")


if __name__ == "__main__":
    main()
