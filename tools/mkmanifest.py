"""Writes MANIFEST.json from contracts/index.json (claims) and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
idx = json.load(open(V + "/contracts/index.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
PY = "/opt/venv/bin/python -P -B check.py"
checks, na = [], []
for p in props:
    i = idx.get(p["id"])
    if i is None or not i.get("modules"):
        na.append(dict(property=p["id"], reason=(i or {}).get("reason", "no contract for it is within the verifier's reach yet")))
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"{PY} {p['id']} --tier quick", thorough_cmd=f"{PY} {p['id']} --tier thorough",
                       technique=i.get("technique", "contract-based deductive verification of the real code (symbolic weakest-precondition engine over the instrumented source, loop invariants, z3/cvc5)"),
                       level=i["level"], level_note=i["note"]))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -P -B tools/setup.py", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the sources are instrumented in memory from /repo's working tree on every run."),
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
