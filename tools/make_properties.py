#!/usr/bin/env python3
"""Writes properties.jsonl. The list of properties is kept here because a
JSON-lines file is awkward to edit by hand."""
import json, os

P = []

def p(id, title, statement, over, over_text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": over_text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_list.py")).read())

ids = [x["id"] for x in P]
assert len(ids) == len(set(ids))
for x in P:
    assert len(x["title"]) <= 80, x["title"]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
