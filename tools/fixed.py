#!/usr/bin/env python3
"""fixed.py PROPERTY KEY COMMIT WHAT : record a repaired defect in known_findings.json"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
k = json.load(open(p))
prop, key, commit, what = sys.argv[1:5]
k["findings"].append(dict(property=prop, key=key, status="fixed", note=f"fixed: property={prop} {commit} {what}"))
json.dump(k, open(p, "w"), indent=1)
