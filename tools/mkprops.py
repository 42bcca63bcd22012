"""Writes /verif/properties.jsonl from the table below (kept as code so statements, anchors stay reviewable)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
note = na = lambda *a, **k: None
exec(pathlib.Path(__file__).with_name("props_table.py").read_text())
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P), "properties")
