#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks there are."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import check
from levels import LEVELS
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
m = dict(version=1, setup_cmd="gcc -O1 -w -o /tmp/pv-actor-setup harness/actor.c && rm -f /tmp/pv-actor-setup && java -version",
         checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in check.CHECKS:
        n = LEVELS[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 harness/check.py %s" % i,
                                thorough_cmd="VERIF_TIER=thorough python3 harness/check.py %s" % i,
                                technique=n[0], level="model_checking", level_note=n[1]))
    else:
        m["not_applicable"].append(dict(property=i, reason="no check yet"))
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
