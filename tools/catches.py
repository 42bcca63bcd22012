"""which check catches which planted bug: applies seeded/*/patch.diff to scratch copies, runs the property's check, writes tools/catches.json
catches.py [ids or props…]"""
import json, os, pathlib, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = pathlib.Path(__file__).resolve().parent.parent
out = V / "tools/catches.json"
res = json.loads(out.read_text()) if out.exists() else {}
ids = [d.name for d in sorted((V / "seeded").iterdir())]
meta = {i: json.loads((V / "seeded" / i / "meta.json").read_text()) for i in ids}
if sys.argv[1:]:
    ids = [i for i in ids if i in sys.argv[1:] or meta[i]["property"] in sys.argv[1:]]
tmp = pathlib.Path(tempfile.mkdtemp(prefix="catch"))


def one(i):
    r = tmp / i
    subprocess.run(["git", "clone", "-q", "/repo", str(r)], check=True)
    subprocess.run(["git", "apply", str(V / "seeded" / i / "patch.diff")], cwd=r, check=True)
    p = meta[i]["property"]
    ev = V / "evidence"
    c = subprocess.run(["/opt/venv/bin/python", str(V / "check.py"), p], cwd=V, env=dict(os.environ, PYVC_REPO=str(r), PYVC_EVIDENCE=str(r), VERIF_SEED="1"), capture_output=True, text=True)
    shutil.rmtree(r)
    v = [x for x in c.stdout.splitlines() if x.startswith("VIOLATION")]
    ob = [x.split("failed obligation:")[1].strip() for x in c.stdout.splitlines() if "failed obligation:" in x]
    how = []
    if v and not v[0].endswith("no-failing-input-found"):
        how.append("oracle input")
    how += [f"contract obligation “{o}”" for o in ob[:1]]
    return i, (", ".join(how) if v and c.returncode == 1 else "MISSED")


try:
    with ThreadPoolExecutor(3) as ex:
        for i, h in ex.map(one, ids):
            res[i] = h
            print(i, h, flush=True)
            out.write_text(json.dumps(dict(sorted(res.items())), indent=0) + "\n")
finally:
    shutil.rmtree(tmp)
