#!/usr/bin/env python3
"""costs.json (order of the queries) from the evidence of the last runs."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(here, "costs.json")
c = json.load(open(p)) if os.path.exists(p) else {}
for f in glob.glob(os.path.join(here, "evidence", "C*.json")):
    for k, v in json.load(open(f))["coverage"]["harnesses"].items():
        if v["status"] == "ok":
            c[k] = round(v["wall_s"])
json.dump(dict(sorted(c.items())), open(p, "w"), indent=0)
