"""Results of a check: findings, instances analysed, evidence file, exit status."""
import json
import os
import sys
import time

from .project import where, qualname

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known-findings.jsonl")


class Incomplete(Exception):
    """The analysis could not run on what it is supposed to analyse."""


class Finding:
    def __init__(self, rule, node, what, construct=None, key=None):
        self.rule = rule
        self.node = node
        self.what = what
        m = getattr(node, "_mod", None)
        self.file = m.rel if m is not None else (node if isinstance(node, str) else "?")
        self.line = getattr(node, "lineno", 0)
        if construct is None:
            n = node
            import ast
            while n is not None and not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                n = getattr(n, "_parent", None)
            construct = qualname(n) if n is not None else "<module>"
        self.construct = construct
        self.key = f"{rule}|{self.file}|{construct}|{key or ''}"

    def __str__(self):
        return f"{self.file}:{self.line}: [{self.rule}] {self.construct}: {self.what}"


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.findings = []
        self.keys = set()
        self.instances = {}     # rule -> [instance strings]
        self.rules = {}         # rule -> description
        self.minimum = {}
        self.assumptions = []
        self.notes = []
        self.selftests = []
        self.t0 = time.time()
        self.units = {}
        self.incomplete = []    # what could not be analysed
        self.anchor = None      # public entry point the analysis started from

    def rule(self, rid, text, minimum=1):
        self.rules[rid] = text
        self.minimum[rid] = minimum
        self.instances.setdefault(rid, {})

    def instance(self, rid, inst, n=1):
        """Record an analysed obligation."""
        d = self.instances.setdefault(rid, {})
        d[inst] = d.get(inst, 0) + n

    def finding(self, rule, node, what, construct=None, key=None):
        f = Finding(rule, node, what, construct, key)
        if self.anchor:
            f.key = f"{rule}|{self.anchor}|{key or ''}"
            f.what += f" (reached from {self.anchor})"
        if f.key in self.keys:
            return
        self.keys.add(f.key)
        self.findings.append(f)

    def run(self, rules, P):
        """Run every rule; one that cannot be completed does not keep the others from reporting."""
        for fn in rules:
            self.anchor = None
            try:
                fn(P, self)
            except Incomplete as e:
                self.incomplete.append(str(e))
            except Exception as e:
                import traceback
                traceback.print_exc()
                self.incomplete.append(f"{fn.__name__}: {type(e).__name__} {e}")
        self.anchor = None
        return self.finish()

    def unit(self, name, n=1):
        self.units[name] = self.units.get(name, 0) + n

    def selftest(self, rule, ok):
        self.selftests.append((rule, ok))
        if not ok:
            raise Incomplete(f"rule {rule} does not recognise its own positive example")

    def finish(self):
        known = load_known()
        new, old = [], []
        for f in self.findings:
            k = (self.pid, f.key)
            if k in known:
                old.append((f, known[k]))
            else:
                new.append(f)
        problems = []
        for r, n in self.minimum.items():
            if len(self.instances.get(r, {})) < n:
                problems.append(f"rule {r}: {len(self.instances.get(r, {}))} instances analysed, at least {n} expected")
        obligations = sum(sum(d.values()) for d in self.instances.values())
        distinct = sum(len(d) for d in self.instances.values())
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {
                "explanation": "Static analysis of the source in the working tree; nothing of the package is imported or run. "
                               + " ".join(f"[{r}] {t}" for r, t in self.rules.items()),
                "rules": {r: {"rule": t, "instances": len(self.instances.get(r, {})),
                              "obligations": sum(self.instances.get(r, {}).values()),
                              "samples": sorted(self.instances.get(r, {}))[:8]} for r, t in self.rules.items()},
                "obligations": obligations,
                "discharged": obligations - len(self.findings),
                "distinct_instances": distinct,
                "units": self.units,
                "self_tests": [r for r, ok in self.selftests],
                "samples": [i for d in self.instances.values() for i in sorted(d)[:3]][:12],
                "known_findings": [f.key for f, _ in old],
                "findings": [str(f) for f in self.findings],
                "analysed_tree": tree_id(),
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(new),
        }
        evdir = os.environ.get("SA_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(evdir, exist_ok=True)
        path = os.path.join(evdir, f"{self.pid}.json")
        with open(path, "w") as fh:
            json.dump(ev, fh, indent=1)
            fh.write("\n")
        print(f"{self.pid}: {distinct} instances, {obligations} obligations, {len(self.findings)} findings "
              f"({len(old)} known), {time.time() - self.t0:.1f} s")
        for r in self.rules:
            print(f"  {r}: {len(self.instances.get(r, {}))} instances")
        for f, k in old:
            print(f"KNOWN-FINDING: property={self.pid} {k.get('what', f.what)}")
        for f in new:
            print(f"  {f}")
        if new:
            for p in self.incomplete:
                print("INCOMPLETE:", p)
            print(f"VIOLATION property={self.pid} replay=evidence/{self.pid}.json")
            return 1
        problems = self.incomplete + problems
        if problems:
            for p in problems:
                print("INCOMPLETE:", p)
            return 2
        return 0


def tree_id():
    import hashlib
    from .project import REPO, PKG
    h = hashlib.sha256()
    n = 0
    for dp, dns, fns in os.walk(os.path.join(REPO, PKG)):
        dns[:] = sorted(d for d in dns if d not in ("tests", "__pycache__"))
        for fn in sorted(fns):
            if fn.endswith((".py", ".pyx", ".pxd", ".hh", ".cu", ".h")):
                n += 1
                with open(os.path.join(dp, fn), "rb") as f:
                    h.update(fn.encode() + f.read())
    return {"files": n, "sha256": h.hexdigest()[:16]}


def load_known():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            d = json.loads(line)
            if d.get("status") == "known":
                out[(d["property"], d["key"])] = d
    return out
