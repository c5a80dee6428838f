"""refac.py SPEC.py [--tests]: every check must stay quiet on edits that keep the behaviour.

SPEC.py defines REFS = [(name, [(file relative to thinc/, old, new)])]. All are applied to one scratch copy and every
check runs on it; for each check that reports something, the edits are applied one at a time to find which one."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
spec = {}
exec(open(sys.argv[1]).read(), spec)
REFS = spec["REFS"]
only = [a for a in sys.argv[2:] if not a.startswith("--")]


def copy(root):
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {root}", shell=True)


def put(root, edits, name):
    for f, old, new in edits:
        p = os.path.join(root, "thinc", f)
        s = open(p).read()
        if s.count(old) != 1:
            return f"{name}: {f}: text found {s.count(old)} times: {old[:70]!r}"
        open(p, "w").write(s.replace(old, new))


def check(root, c):
    env = dict(os.environ, SA_REPO=root, SA_EVIDENCE=os.path.join(root, "evidence"))
    r = subprocess.run([PY, "check.py", c], cwd=V, env=env, capture_output=True, text=True)
    out = [l.strip() for l in r.stdout.splitlines() if l.startswith("  thinc") or "INCOMPLETE" in l]
    return r.returncode, out or [r.stderr[-300:]]


root = "/tmp/refac-all"
copy(root)
applied = []
for name, edits in REFS:
    e = put(root, edits, name)
    if e:
        print("SKIP", e)
    else:
        applied.append((name, edits))
print(len(applied), "edits")
checks = only or [c["property_id"] if "property_id" in c else c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
alarms = []
with ThreadPoolExecutor(7) as ex:
    for c, (rc, out) in zip(checks, ex.map(lambda c: check(root, c), checks)):
        if rc:
            alarms.append(c)
            print("ALARM", c, rc, len(out), out[0][:250])
if alarms and "--all" not in sys.argv:
    def one(t):
        i, (name, edits), c = t
        r = f"/tmp/refac-{i}-{c}"
        copy(r)
        e = put(r, edits, name)
        res = (None, [e]) if e else check(r, c)
        shutil.rmtree(r)
        return name, c, res
    jobs = [(i, a, c) for c in alarms for i, a in enumerate(applied)]
    with ThreadPoolExecutor(7) as ex:
        for name, c, (rc, out) in ex.map(one, jobs):
            if rc:
                print("  BY", name, c, rc, out[0][:400])
if "--tests" in sys.argv:
    wt = "/tmp/refac-wt"
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(f"cp -a /repo {wt}", shell=True)
    for name, edits in applied:
        put(wt, edits, name)
    subprocess.run(f"{PY} setup.py build_ext --inplace -j 6 >/dev/null 2>&1", cwd=wt, shell=True)
    r = subprocess.run(f"PYTHONPATH={wt} {PY} -m pytest -q -x --no-header -p no:cacheprovider thinc/tests 2>&1 | tail -8", cwd=wt, shell=True, capture_output=True, text=True)
    print(r.stdout)
    shutil.rmtree(wt)
shutil.rmtree(root)
