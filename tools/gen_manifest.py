#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
TRUST = ("TLC, the Java overrides of BigNat/BigPoly (cross-checked against their TLA+ definitions by "
         "'check.py selfcheck'), the event recording of harness/, and rustc are trusted.")
checks, na = [], []
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i,
            thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % i,
            technique=p.get("technique", "TLA+ specification model checked with TLC; recorded executions of the real code validated against it with TLC"),
            level="model_checking", level_note=p.get("note", "") + (" " if p.get("note") else "") + TRUST))
    else:
        na.append(dict(property=i, reason="check under construction"))
m = dict(version=1, setup_cmd="python3 check.py setup",
    hooks=dict(guard="cfg(onion_verif)", enable="RUSTFLAGS --cfg onion_verif, set in harness/.cargo/config.toml",
               source_commits=HOOKS if (HOOKS := [l.strip() for l in open(os.path.join(HERE, "tools", "hook_commits.txt"))]) else []),
    checks=checks, not_applicable=na,
    notes="Language: TLA+ with TLC. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
