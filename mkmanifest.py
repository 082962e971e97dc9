#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and checks.py."""
import json
from checks import CHECKS
from na import NA
NOTE = ("Every recorded execution of the real code is decided exactly by TLC against the declarative specification; "
        "exhaustive on the small grids named in DESIGN.md, seeded random beyond; trusts TLC, the driver's recording and the affine "
        "embeddings that carry small integer inputs to every scalar type.")
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "./run.py %s quick" % i, "thorough_cmd": "./run.py %s thorough" % i,
                       "technique": c.get("technique", "TLA+ specification checked with TLC; traces recorded from the real code validated against it"),
                       "level": "model_checking",
                       "level_note": c.get("note", NOTE)})
    else:
        na.append({"property": i, "reason": NA.get(i, "not built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open("MANIFEST.json", "w"), indent=1)

import subprocess
subprocess.run(["/opt/veriftools/pyvenv/bin/python", "-c", """
import json, jsonschema
m = json.load(open('MANIFEST.json')); jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l), sch)
"""], check=True)
