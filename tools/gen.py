#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props_data.py and checks_table.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
from checks_table import CHECKS
from props_data import P
import jsonschema
ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
with open(V + "/properties.jsonl", "w") as f:
    for x in sorted(P, key=lambda x: x["id"]):
        jsonschema.validate(x, ps)
        assert x["statement"].count(". ") <= 2, x["id"]
        for fl in x["anchors"]["files"]:
            assert os.path.exists("/repo/" + fl), fl
        f.write(json.dumps(x) + "\n")
ids = {x["id"] for x in P}
assert ids == set(CHECKS), ids ^ set(CHECKS)
m = dict(version=1, setup_cmd="python3 setup.py",
         checks=[dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --thorough" % i,
                      evidence_file="evidence/%s.json" % i, technique=CHECKS[i]["technique"], level=CHECKS[i].get("level", "exploration"),
                      level_note=CHECKS[i].get("note", "Random generation with an explicit oracle and shrinking: no violation among the generated cases. "
                                               "Trusts the harness's model, the compiler and the kernel; says nothing about cases not generated."))
                 for i in sorted(CHECKS)],
         not_applicable=[],
         notes="Harnesses in harness/, engine in engine/, driver check.py, settings checks_table.py. No hooks in /repo.")
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties")
