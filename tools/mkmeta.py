#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, claimed=True, note="", state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  observe=observe, claimed=claimed, note=note, state=state or [], na=na))

exec(open(os.path.join(V, "tools", "props.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "contracts on the real Go functions, verification conditions generated from the SSA of /repo on every run and discharged by z3/cvc5 (govc); concrete replay harness for failing inputs",
        "level": "proof",
        "level_note": p["note"],
    } for p in P if p["claimed"]],
    "not_applicable": [{"property": p["id"], "reason": p["na"] or "not claimed yet"} for p in P if not p["claimed"]],
    "notes": "No hooks in /repo: contracts are overlaid on the packages when the verifier loads them.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties,", len(man["checks"]), "claimed")
