"""Write /verif/MANIFEST.json from the checks that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
from levels import LEVELS, NOTES, NOT_APPLICABLE
checks = []
for p in props:
    i = p["id"]
    if i in NOT_APPLICABLE:
        continue
    checks.append(dict(
        property=i,
        quick_cmd="%s harness/run.py %s" % (PY, i),
        thorough_cmd="VERIF_TIER=thorough %s harness/run.py %s" % (PY, i),
        technique=NOTES[i][0], level=LEVELS.get(i, "exploration"), level_note=NOTES[i][1],
        evidence_file="evidence/%s.json" % i))
m = dict(version=1, setup_cmd="%s tools/setup.py" % PY, checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()])
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(NOT_APPLICABLE), "not applicable")
