#!/usr/bin/env python3
"""newbug.py SPEC.py : SPEC defines id, property, needs, breaks, edits=[(file, old, new)], demo (python text)"""
import sys, os, subprocess, json, shutil, tempfile
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        d = f"/verif/seeded/{b['id']}"
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp(prefix="newbug_")
        subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
        for f, old, new in b["edits"]:
            p = f"{w}/r/{f}"
            s = open(p).read()
            n = s.count(old)
            assert n == 1, (b["id"], f, n, old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True, check=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(b["demo"].strip() + "\n")
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# cwd: the repository root\nexport PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\nexec python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        shutil.rmtree(w)
        print("wrote", d)
