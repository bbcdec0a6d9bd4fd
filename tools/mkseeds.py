#!/usr/bin/env python3
"""Write seeded/<id>/ from tools/seedsrc/*.py (each defines SEEDS: list of dicts id, property, needs, breaks, edits, demo)."""
import glob, json, os, shutil, subprocess, sys, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB = open(os.path.join(V, "tools/seedsrc/lib.txt")).read()
only = set(sys.argv[1:])
for f in sorted(glob.glob(os.path.join(V, "tools/seedsrc/*.py"))):
    for s in runpy.run_path(f)["SEEDS"]:
        if only and s["id"] not in only:
            continue
        w = tempfile.mkdtemp(prefix="mkseed")
        subprocess.check_call(["git", "clone", "-q", os.environ.get("VERIF_REPO", "/repo"), w + "/r"])
        for path, old, new in s["edits"]:
            p = os.path.join(w, "r", path)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], path, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        d = subprocess.check_output(["git", "-C", w + "/r", "diff"]).decode()
        out = os.path.join(V, "seeded", s["id"])
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(d)
        open(out + "/lib.py", "w").write(LIB)
        open(out + "/demo.py", "w").write(s["demo"].lstrip())
        env = s.get("env", "")
        open(out + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the property holds; exit 1: it does not\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 %s\n'
            'exec timeout -k 5 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n' % env)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        shutil.rmtree(w)
        print(s["id"])
