"""catch.py [seed ids or prefixes] [--all-checks]: which check reports which planted change.

Works on scratch copies (SA_REPO) so that several run at once; the registered commands always analyse /repo."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ids = sorted(os.listdir(os.path.join(V, "seeded")))
want = [a for a in sys.argv[1:] if not a.startswith("--")]
if want:
    ids = [i for i in ids if any(i.startswith(w) for w in want)]


def one(i):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    root = f"/tmp/catch-{i}"
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {root}", shell=True)
    r = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=root, capture_output=True, text=True)
    if r.returncode:
        return i, meta["property"], "patch fails: " + r.stderr[:100]
    env = dict(os.environ, SA_REPO=root, SA_EVIDENCE=os.path.join(root, "evidence"))
    r = subprocess.run([PY, "check.py", meta["property"]], cwd=V, env=env, capture_output=True, text=True)
    out = [l for l in r.stdout.splitlines() if l.startswith("  thinc") or "INCOMPLETE" in l or "unknown" in l]
    shutil.rmtree(root, ignore_errors=True)
    return i, meta["property"], f"exit {r.returncode}  " + (out[0].strip()[:230] if out else (r.stderr[-300:] if r.returncode not in (0, 1) else ""))


with ThreadPoolExecutor(6) as ex:
    for i, p, res in ex.map(one, ids):
        print(("CAUGHT " if res.startswith("exit 1") else "MISSED ") + f"{i} [{p}] {res}")
