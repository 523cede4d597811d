#!/usr/bin/env python3
"""Writes MANIFEST.json: every property that has at least one scope in the harness is claimed."""
import json, os, re, glob
here = os.path.dirname(os.path.abspath(__file__))
top = os.path.join(here, "..")
props = [json.loads(l) for l in open(os.path.join(top, "properties.jsonl"))]
src = "".join(open(f).read() for f in glob.glob(os.path.join(top, "harness", "p_*.c")))
have = set(re.findall(r'\{\s*"(C\d\d)",\s*"', src))
notes = {}
nf = os.path.join(here, "notes.json")
if os.path.exists(nf): notes = json.load(open(nf))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        n = notes.get(i, {})
        checks.append(dict(property=i, quick_cmd="./check %s --tier quick" % i,
            thorough_cmd="./check %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
            technique=n.get("technique", "stateless exhaustive exploration of the real code (bounded choice enumeration) against a reference model"),
            level=n.get("level", "model_checking"),
            level_note=n.get("note", "exhaustive within the bounds listed per scope in the evidence; trusts the C reference oracle, cfitsio and GLib")))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na),
          open(os.path.join(top, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
