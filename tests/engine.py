"""The verifier must not prove any of the false claims of contracts/selftest.py (names false_*) and should prove the true_* ones."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get("PYVC_REPO", "/repo"))
os.environ.setdefault("MPLBACKEND", "Agg")
sys.setrecursionlimit(20000)
from pyvc import harness
import contracts.selftest
bad = 0
for ct in harness.REGISTRY:
    if ct.prop != "SELF":
        continue
    r = harness.run_contract(ct)
    name = ct.fn.__name__
    wrong = r["status"] == "proved" if name.startswith("false") else r["status"] != "proved"
    bad += wrong
    print("WRONG" if wrong else "ok   ", name, r["status"], r.get("reason", ""))
sys.exit(1 if bad else 0)
