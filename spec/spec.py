"""Source of properties.jsonl and MANIFEST.json: python3 spec/spec.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      technique=technique, note=note, na=na, state=state, observe=observe))


exec(open(os.path.join(HERE, "spec", "props.py")).read())

PY = "/opt/venv/bin/python"


def main():
    from importlib import util
    import sys
    sys.path.insert(0, HERE)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
            if p["state"]:
                d["anchors"]["state"] = [{"name": n, "meaning": m} for n, m in p["state"]]
            if p["observe"]:
                d["anchors"]["observe_at"] = p["observe"]
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        else:
            checks.append({"property": p["id"], "quick_cmd": f"{PY} check.py {p['id']} --tier quick",
                           "thorough_cmd": f"{PY} check.py {p['id']} --tier thorough",
                           "technique": p["technique"], "level": "other", "level_note": p["note"]})
    man = {"version": 1, "setup_cmd": f"{PY} check.py --selfcheck", "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


main()
