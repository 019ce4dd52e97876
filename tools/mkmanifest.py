"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist (run me after adding a check)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if not os.path.exists(os.path.join(ROOT, "checks", i.lower() + ".py")):
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
        continue
    doc = open(os.path.join(ROOT, "checks", i.lower() + ".py"), encoding="utf-8").read()
    mod_technique = doc.split('TECHNIQUE = "', 1)[1].split('"', 1)[0] if 'TECHNIQUE = "' in doc else "property-based testing (Hypothesis), reference oracle"
    checks.append({"property": i, "quick_cmd": f"/opt/venv/bin/python check.py {i} --tier quick",
                   "thorough_cmd": f"/opt/venv/bin/python check.py {i} --tier thorough", "technique": mod_technique, "level": "exploration",
                   "level_note": "Random structured cases with shrinking, seeded by VERIF_SEED: no violation among the cases explored is evidence, not proof. "
                                 "Trusts graphql-core, pydantic and the oracle in checks/%s.py; the generated subset and its exclusions are in DESIGN.md." % i.lower()})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, 'pbt'); import boot; boot.boot(); import hypothesis, graphql, pydantic\"",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo. check.py <ID> --replay FILE re-runs one recorded case."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
