"""Writes /verif/MANIFEST.json from tools/checks.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}
m = dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[],
         notes="Checks are driven by ./check (see DESIGN.md). No hooks are compiled into /repo: the harnesses use the public API; "
               "scheduling points come from the compiler (-finstrument-functions) and from sys.settrace.")
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="./check %s --tier quick" % i, thorough_cmd="./check %s --tier thorough" % i,
                                evidence_file="evidence/%s.json" % i, technique=c["technique"], level=c["level"], level_note=c["level_note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "Its check is not built yet.")))
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
