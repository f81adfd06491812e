#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/*.json (one file per property)."""
import json, glob, os

H = os.path.dirname(os.path.abspath(__file__))
props, checks, na = [], [], []
for p in sorted(glob.glob(os.path.join(H, "props", "*.json"))):
    d = json.load(open(p))
    chk, nar = d.pop("check", None), d.pop("not_applicable", None)
    props.append(d)
    if chk:
        i = d["id"]
        checks.append(
            dict(
                property=i,
                quick_cmd=f"python3-vt check.py {i}",
                thorough_cmd=f"python3-vt check.py {i} --thorough",
                technique=chk["technique"],
                level=chk.get("level", "proof"),
                level_note=chk["level_note"],
            )
        )
    else:
        na.append(dict(property=d["id"], reason=nar))
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for d in props:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
