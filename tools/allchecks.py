"""allchecks.py [ID...]: the checks one after another in one process (shared caches), stopping at the first that reports. For sweeps."""
import contextlib
import io
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
from sa import registry  # noqa: E402
from sa.report import Check  # noqa: E402
from sa.project import Project  # noqa: E402

P = Project()
if P.errors:
    print("PARSE", P.errors[:1])
    sys.exit(2)
noanswer = []
for pid in sys.argv[1:] or list(registry.CHECKS):
    ck = Check(pid, "quick")
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            rc = ck.run(registry.CHECKS[pid], P)
    except Exception as e:
        noanswer.append(f"{pid}: {type(e).__name__} {e}"[:150])
        continue
    if rc == 1:
        print("CAUGHT", pid, "|", next((l for l in buf.getvalue().splitlines() if "thinc/" in l), "")[:200])
        break
    if rc:
        noanswer.append(f"{pid}: {ck.incomplete[:1]}"[:200])
else:
    print("OPEN")
for x in noanswer:
    print("NOANSWER", x)
