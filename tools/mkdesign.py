"""DESIGN.md from the prose, the registered contracts, evidence and planting results (run with /opt/venv/bin/python after tools/regress.sh)"""
import importlib, json, pathlib, re, sys
V = pathlib.Path(__file__).resolve().parent.parent
head = (V / "tools/design_head.md").read_text()
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
man = json.loads((V / "MANIFEST.json").read_text())
kf = json.loads((V / "known_findings.json").read_text())
cat = json.loads((V / "tools/catches.json").read_text()) if (V / "tools/catches.json").exists() else {}
extra = {}
if (V / "tools/design_extra.md").exists():
    for b in (V / "tools/design_extra.md").read_text().split("\n## ")[1:]:
        k, t = b.split("\n", 1)
        extra[k.strip()] = t.strip()
fixes = "| property | commit | what failed |\n|---|---|---|\n" + "\n".join(
    f"| {k['property']} | {k['line'].split()[2]} | {' '.join(k['line'].split()[3:])} |" for k in sorted(kf, key=lambda k: k["property"]))
out = []
for p in props:
    i = p["id"]
    ev = json.loads((V / f"evidence/{i}.json").read_text())
    c = ev["coverage"]
    out.append(f"\n### {i} {p['title']}\n\n{p['statement']}\n")
    out.append(f"*Decided by* {c['contracts_proved']} proved contracts of {c['contracts']}, {c['obligations']} obligations ({', '.join(f'{k} {v}' for k, v in c['discharged_by_backend'].items())}), about {ev['wall_s']:.0f} s:\n")
    for f in c["functions_under_contract"]:
        fs = ", ".join("`" + x.replace("hrosailing.", "", 1) + "`" for x in f["functions"])
        b = f" **bounded: {f['bounded']}**" if f.get("bounded") else ""
        st = "" if f["status"] == "proved" else f" **({f['status']})**"
        out.append(f"- `{f['contract'].split(':')[1]}` ({fs}): {' '.join(f['says'].split())}{b}{st}")
    doc = " ".join((c["rule"] or "").split())
    out.append(f"\n*Bounded oracle* ({c['evaluations']} cases per quick run; not counted as proof): {doc}.")
    ext = [a for a in ev["assumptions"] if ":" in a and not a.startswith(("pyvc", "z3", "machine", "python int", "models of", i + ":")) or a.startswith("call judged")]
    if ext:
        out.append("\n*Assumed or judged by contract:* " + "; ".join(ext) + ".")
    if i in extra:
        out.append("\n*Notes:* " + extra[i])
    seeds = sorted(d.name for d in (V / "seeded").iterdir() if json.loads((d / "meta.json").read_text())["property"] == i)
    if seeds:
        out.append("\n| planted bug | needs | caught by |\n|---|---|---|")
        for s in seeds:
            m = json.loads((V / "seeded" / s / "meta.json").read_text())
            out.append(f"| {s} | {' '.join(m['needs'].split())} | {cat.get(s, '?')} |")
lim = (V / "tools/design_limits.md").read_text()
na = man.get("not_applicable", [])
if na:
    lim += "\n## 6. Not applicable\n\n" + "\n".join(f"* {x['property']}: {x['reason']}" for x in na) + "\n"
(V / "DESIGN.md").write_text(head.replace("@FIXES@", fixes).replace("@PROPS@", "\n".join(out)).replace("@LIMITS@", lim))
print("DESIGN.md", len((V / "DESIGN.md").read_text()))
