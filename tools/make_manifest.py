#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of built checks below."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")

MODEL = "property-based testing: generated operation histories against a reference model, with shrinking"
FAULT = "property-based testing with fault injection: every generated operation also fails at a chosen callback; model and ledger as oracle"
DIFF = "property-based differential testing: generated inputs, two implementations compared"

# a case of these keeps a 2 GiB address range for good, so their work cannot be multiplied
NO_THOROUGH = {"C20", "C21"}

# property -> (technique, level, note)
CHECKS = {}
def c(id, technique, level, note):
    CHECKS[id] = (technique, level, note)

exec(open(os.path.join(ROOT, "tools", "checks_list.py")).read())

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
ids = [p["id"] for p in props]
assert set(CHECKS) <= set(ids), set(CHECKS) - set(ids)
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the harness crates use /repo's public interfaces and mount its source files unchanged", "source_commits": []},
    "checks": [{
        "property": i,
        "quick_cmd": f"bash run.sh {i}",
        **({} if i in NO_THOROUGH else {"thorough_cmd": f"VERIF_TIER=thorough bash run.sh {i}"}),
        "evidence_file": f"evidence/{i}.json",
        "technique": CHECKS[i][0],
        "level": CHECKS[i][1],
        "level_note": CHECKS[i][2],
    } for i in ids if i in CHECKS],
    "not_applicable": [{"property": i, "reason": NOT_APPLICABLE[i]} for i in ids if i not in CHECKS],
    "notes": NOTES,
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
