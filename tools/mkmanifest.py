#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i,
                           thorough_cmd="python3 tools/check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=registry.TECHNIQUE[i], level="model_checking",
                           level_note=registry.NOTE[i]))
    else:
        na.append(dict(property=i, reason=registry.NA.get(i, "no check yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         hooks=dict(guard="MAF_VERIF_HOOKS", enable="tools/build.py compiles the sources with -DMAF_VERIF_HOOKS; no source uses it so far: the drivers interpose the synchronisation primitives instead", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="TLA+ specifications in specs/, checked with TLC; executions of the real code under a deterministic scheduler (rt/) are validated against them. See DESIGN.md.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
