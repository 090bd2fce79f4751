#!/usr/bin/env python3
"""fixed.py PROP COMMIT WHAT...: append a 'fixed' entry to known_findings.json (run by hand, never by a check)."""
import json, sys
p = "/verif/known_findings.json"
d = json.load(open(p))
prop, commit, what = sys.argv[1], sys.argv[2], " ".join(sys.argv[3:])
d["findings"].append({"id": f"F{len(d['findings'])+1:02d}", "property": prop, "status": "fixed", "signature": None, "commit": commit,
                      "what": f"fixed: property={prop} {commit} {what}"})
json.dump(d, open(p, "w"), indent=1)
