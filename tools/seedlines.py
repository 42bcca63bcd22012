"seedlines.py: planted bugs that change only lines my own commits added to /repo (they would not count)"
import pathlib, subprocess
base = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--reverse"], capture_output=True, text=True).stdout.split()[0]
for d in sorted(pathlib.Path("/verif/seeded").iterdir()):
    if not (d / "patch.diff").exists():
        print(d.name, "no patch"); continue
    f, ok, adds, rem = None, False, 0, 0
    for line in (d / "patch.diff").read_text().splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
            old = subprocess.run(["git", "-C", "/repo", "show", f"{base}:{f}"], capture_output=True, text=True).stdout.splitlines()
        elif line.startswith("-") and not line.startswith("---"):
            rem += 1
            ok = ok or line[1:] in old
    if rem and not ok:
        print(d.name, "changes only own lines")
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", str(d / "patch.diff")], capture_output=True, text=True)
    if r.returncode:
        print(d.name, "does not apply", r.stderr[:100])
