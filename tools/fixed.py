"fixed.py PROP COMMIT TEXT: record a repair in known_findings.json"
import json, pathlib, sys
p = pathlib.Path(__file__).resolve().parent.parent / "known_findings.json"
k = json.loads(p.read_text())
prop, commit, text = sys.argv[1:]
k.append({"property": prop, "status": "fixed", "key": f"fix-{commit}", "line": f"fixed: property={prop} {commit} {text}"})
p.write_text(json.dumps(k, indent=1) + "\n")
