import sys, importlib, os, json
sys.path.insert(0, "/verif"); sys.path.insert(0, os.environ.get("PYVC_REPO", "/repo"))
os.environ.setdefault("MPLBACKEND", "Agg")
sys.setrecursionlimit(20000)
from pyvc import harness
mod, *names = sys.argv[1:]
importlib.import_module("contracts." + mod)
for ct in harness.REGISTRY:
    if names and not any(n in ct.fn.__name__ for n in names): continue
    import io, contextlib
    buf = io.StringIO()
    with contextlib.redirect_stderr(buf):
        r = harness.run_contract(ct, quiet=False)
    if buf.getvalue(): L = buf.getvalue().splitlines(); print('\n'.join(L[:0] + L[-int(os.environ.get('TB', 14)):]))
    print(ct.fn.__name__, r["status"], r.get("reason", ""), "obl", len(r["obligations"]), "paths", r.get("paths"), "wall", r["wall"], r["backends"], "reach", r.get("reachable"))
    for o in r["obligations"]:
        if o["result"] != "proved" or "-v" in os.environ.get("TRYV", ""): print("   ", json.dumps(o, indent=1))
