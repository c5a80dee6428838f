#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's working tree."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa import registry  # noqa: E402
from sa.report import Check  # noqa: E402
from sa.project import Project  # noqa: E402


def main():
    pid = sys.argv[1]
    if pid == "--selfcheck":
        P = Project()
        print(len(P.modules), "modules parsed,", len(P.errors), "errors;", len(registry.CHECKS), "properties registered")
        return 1 if P.errors else 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if pid not in registry.CHECKS:
        print("unknown property", pid)
        return 2
    ck = Check(pid, tier)
    P = Project()
    if P.errors:
        for e in P.errors:
            print("INCOMPLETE: cannot parse", e)
        return 2
    return ck.run(registry.CHECKS[pid], P)


if __name__ == "__main__":
    sys.exit(main())
