"""development helper: python3 tools/mkseed.py ID PROPERTY FILE 'needs' 'breaks' < json {"old":..., "new":..., "demo":...}"""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(sid, prop, edits, needs, breaks, demo):
    """edits: list of (file, old, new)"""
    w = f"/tmp/mk-{sid}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f, old, new in edits:
        p = f"{w}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=w, capture_output=True, text=True).stdout
    shutil.rmtree(w)
    d = f"{V}/seeded/{sid}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write("#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
    open(d + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nimport logging\nlogging.disable(logging.CRITICAL)\n" + demo)
