"""plant.py SPEC.py: turn described source changes into /verif/seeded/<id>/ after confirming each in a scratch copy.

SPEC.py defines SEEDS = [dict(id=, prop=, needs=, breaks=, edits=[(file, old, new)], demo=python source)].
Each is applied to a scratch copy of /repo; the demonstration must pass on /repo and fail on the copy; finally all
accepted ones are applied together and the stable tests run (pass --no-tests to skip)."""
import json
import os
import shutil
import subprocess
import sys

REPO, WT, OUT = "/repo", "/tmp/plant-wt", "/verif/seeded"
PY = "/opt/venv/bin/python"
SH = '#!/bin/bash\n# exit 0: the behaviour is right; nonzero: broken\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, timeout=900):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)


def apply(edits, root):
    for f, old, new in edits:
        p = os.path.join(root, f)
        s = open(p).read()
        if s.count(old) < 1:
            return f"{f}: text not found: {old[:60]!r}"
        if s.count(old) > 1:
            return f"{f}: text found {s.count(old)} times: {old[:60]!r}"
        open(p, "w").write(s.replace(old, new))
    return None


def native(edits):
    return any(f.endswith((".pyx", ".hh", ".pxd")) for f, _, _ in edits)


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    seeds = spec["SEEDS"]
    shutil.rmtree(WT, ignore_errors=True)
    sh(f"cp -a {REPO} {WT}", "/")
    ok = []
    for s in seeds:
        d = os.path.join(OUT, s["id"])
        sh("git checkout -q -- . ", WT)
        err = apply(s["edits"], WT)
        if err:
            print("BAD ", s["id"], err)
            continue
        if native(s["edits"]):
            r = sh(f"{PY} setup.py build_ext --inplace -j 6", WT)
            if r.returncode:
                print("BAD ", s["id"], "does not build", r.stderr[-800:])
                continue
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(s["demo"].strip() + "\n")
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        a = sh(f"bash {d}/demo.sh", REPO, 280)
        b = sh(f"bash {d}/demo.sh", WT, 280)
        if native(s["edits"]):
            keep = sh("git diff", WT).stdout
            sh("git checkout -q -- .", WT)
            sh(f"{PY} setup.py build_ext --inplace -j 6", WT)
            diff = keep
        else:
            diff = sh("git diff", WT).stdout
        if a.returncode != 0 or b.returncode == 0:
            print("BAD ", s["id"], "demo: unpatched", a.returncode, "patched", b.returncode, (a.stderr if a.returncode else b.stdout)[-600:])
            shutil.rmtree(d)
            continue
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("demo ok", s["id"], "|", b.stderr.strip().splitlines()[-1][:100] if b.stderr.strip() else b.stdout.strip()[-100:])
        ok.append(s)
    if "--no-tests" not in sys.argv and ok:
        sh("git checkout -q -- .", WT)
        for s in ok:
            r = sh(f"git apply {OUT}/{s['id']}/patch.diff", WT)
            if r.returncode:
                print("conflict", s["id"], r.stderr[:200])
        if any(native(s["edits"]) for s in ok):
            r = sh(f"{PY} setup.py build_ext --inplace -j 6", WT)
        r = sh(f"PYTHONPATH=/opt/vp/plugin {PY} -m pytest -q -x --maxfail=20 -p no:cacheprovider -p vp_seed --hypothesis-seed=0 -n 8 --dist worksteal --timeout=400 thinc/tests 2>&1 | grep -E '^FAILED|^ERROR|passed|failed' | cut -c1-150", WT)
        print(r.stdout)
    shutil.rmtree(WT, ignore_errors=True)


main()
