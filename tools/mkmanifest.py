#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json (one source for what is claimed)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
c = json.load(open(os.path.join(V, "checks.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[])
for p in props:
    if p in c["properties"]:
        x = c["properties"][p]
        m["checks"].append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
             evidence_file="evidence/%s.json" % p, technique=x.get("technique", "contract-based deductive verification (Verus) of functions extracted from the source on every run"),
             level=x.get("level", "proof"), level_note=x["note"]))
    else:
        m["not_applicable"].append(dict(property=p, reason=c["not_applicable"].get(p, "not claimed yet")))
m["notes"] = c.get("notes", "")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
