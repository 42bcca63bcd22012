"""Plants the bugs of tools/seeds.py:  plant.py [ids...] [--no-tests] [--check]
For each: makes a scratch copy of /repo, applies the edit, writes seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json},
verifies demo (0 without, nonzero with), stable tests (with), and with --check runs the property's check against the copy."""
import json, os, pathlib, shutil, subprocess, sys, tempfile
HERE = pathlib.Path(__file__).resolve().parent
VER = HERE.parent
SEEDS = []
def seed(id, prop, file, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, prop=prop, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks))
exec((HERE / "seeds.py").read_text())
args = [a for a in sys.argv[1:] if not a.startswith("--")]
flags = {a for a in sys.argv[1:] if a.startswith("--")}
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
DEMO_SH = '#!/bin/sh\nexport PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'
tmp = pathlib.Path(tempfile.mkdtemp(prefix="plant"))
try:
    for s in SEEDS:
        if args and not any(a == s["id"] or a == s["prop"] for a in args):
            continue
        repo = tmp / "r"
        if repo.exists():
            shutil.rmtree(repo)
        shutil.copytree(os.environ.get("PLANT_BASE", "/repo"), repo, symlinks=True)
        d = VER / "seeded" / s["id"]
        d.mkdir(parents=True, exist_ok=True)
        (d / "demo.py").write_text(s["demo"].strip() + "\n")
        (d / "demo.sh").write_text(DEMO_SH)
        (d / "demo.sh").chmod(0o755)
        (d / "meta.json").write_text(json.dumps({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        r0 = subprocess.run(["sh", str(d / "demo.sh")], cwd=repo, env=ENV, capture_output=True, text=True)
        edits = s["edits"] if isinstance(s["edits"], list) else [s["edits"]]
        for e in edits:
            f, old, new = e if len(e) == 3 else (s["file"], *e)
            p = repo / "hrosailing" / f
            t = p.read_text()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            p.write_text(t.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True).stdout
        (d / "patch.diff").write_text(diff)
        r1 = subprocess.run(["sh", str(d / "demo.sh")], cwd=repo, env=ENV, capture_output=True, text=True)
        msg = f"{s['id']}: demo {r0.returncode}/{r1.returncode}"
        if r0.returncode:
            msg += " UNCHANGED FAILS " + r0.stderr[-400:]
        if not r1.returncode:
            msg += " NOT DETECTED BY DEMO"
        if "--no-tests" not in flags:
            t = subprocess.run(["bash", str(HERE / "testcopy.sh"), str(repo)], capture_output=True, text=True)
            msg += " | " + (t.stdout.strip().splitlines() or ["?"])[-1]
        if "--check" in flags:
            c = subprocess.run([sys.executable, str(VER / "check.py"), s["prop"]], cwd=VER, env=dict(os.environ, PYVC_REPO=str(repo)), capture_output=True, text=True)
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            msg += f" | check exit {c.returncode} {v[0][-60:] if v else 'MISSED'}; " + "; ".join(l.strip()[:150] for l in c.stdout.splitlines() if "failed obligation" in l)
        print(msg, flush=True)
finally:
    shutil.rmtree(tmp)
