"""Writes /verif/MANIFEST.json: one check per property that has contracts; the rest is not_applicable with a reason."""
import json, pathlib
HERE = pathlib.Path(__file__).resolve().parent
P, NOTE, NA = [], {}, {}
def p(id, *a):
    P.append(id)
def note(id, text, level="proof"):
    NOTE[id] = (text, level)
def na(id, reason):
    NA[id] = reason
exec((HERE / "props_table.py").read_text())
ver = HERE.parent
checks = []
for i in P:
    if i in NA:
        continue
    if not (ver / "contracts" / f"{i.lower()}.py").exists():
        NA[i] = "no contract for this property has been completed"
        continue
    text, level = NOTE.get(i, ("", "proof"))
    orc = (ver / "oracles" / f"{i.lower()}.py").exists()
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "contract-based deductive verification of the real source (pyvc VC generator, z3/cvc5)"
                     + ("; run-time oracle searches a replayable failing input" if orc else ""),
        "level": level,
        "level_note": (text + " " if text else "") + "Obligations are generated from the current source on every run and discharged by z3 or cvc5. "
                      "Trusted: the verifier pyvc, its numpy/stdlib models, reals for floats (see trusted_base in the evidence). "
                      "Contracts not proved on the tree at hand are reported as bounded_or_unproved; there only the run-time oracle speaks.",
    })
man = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup_check.py", "checks": checks,
       "not_applicable": [{"property": k, "reason": v} for k, v in NA.items() if k in P],
       "notes": "No hooks in /repo; the checks read /repo's working tree directly. check.py re-executes itself under /opt/venv/bin/python."}
(ver / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(checks), "checks,", len(man["not_applicable"]), "not applicable")
