#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and propinfo.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import propinfo
NA = propinfo.NOT_APPLICABLE
checks, na = [], []
for l in open(os.path.join(HERE, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in propinfo.INFO:
        checks.append({"property": i, "quick_cmd": "python3 check.py --prop %s" % i,
                       "thorough_cmd": "python3 check.py --prop %s --tier thorough" % i,
                       "technique": "deterministic simulation with fault injection: " + propinfo.INFO[i]["technique"],
                       "level": "exploration",
                       "level_note": propinfo.INFO[i]["note"] + " " + propinfo.COMMON_NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for this property yet")})
m = {"version": 1, "setup_cmd": "python3 build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every seam is an interface the library has (stream base class, opener interface, data event handler) or a linker --wrap of a C library function in the simulator binary. Set SIM_THOROUGH_SECONDS to bound the thorough tier (default 3600)."}
open(os.path.join(HERE, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
