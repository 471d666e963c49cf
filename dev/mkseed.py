#!/usr/bin/env python3
"""writes /verif/seeded/<id>/ from an edit of /repo (undone afterwards)"""
import subprocess, os, json, shutil
DEV = os.path.dirname(os.path.abspath(__file__))
def seed(id, prop, edits, needs, breaks, demo):
    """edits: list of (file, old, new); demo: text of demo.rs using crate reveaal (and edbm)"""
    d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
    subprocess.run("git -C /repo diff --quiet", shell=True, check=True)
    try:
        for f, o, n in edits:
            p = "/repo/" + f; s = open(p).read()
            assert s.count(o) == 1, (id, "old text occurs", s.count(o), o)
            open(p, "w").write(s.replace(o, n))
        diff = subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True, check=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.rs", "w").write(demo)
    shutil.copy(DEV + "/kit.tgz", d); shutil.copy(DEV + "/demo.sh", d); os.chmod(d + "/demo.sh", 0o755)
