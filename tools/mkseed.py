"""mkseed(id, prop, [(file, old, new)...], needs, breaks, demo): writes
seeded/<id>/."""
import difflib
import json
import os
import shutil
V = "/verif"
C = "code/cpp/src/"


def mkseed(id, prop, edits, needs, breaks, demo):
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in edits:
        f = f if f.startswith("code/") else C + f
        t = files.get(f) or open("/repo/" + f, encoding="utf-8").read()
        assert t.count(old) == 1, (id, f, t.count(old))
        files[f] = t.replace(old, new)
    p = ""
    for f, t in files.items():
        a = open("/repo/" + f, encoding="utf-8").read()
        p += f"diff --git a/{f} b/{f}\n"
        p += "".join(difflib.unified_diff(
            a.splitlines(True), t.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(p)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
              open(d + "/meta.json", "w"), indent=1, ensure_ascii=False)
    shutil.copy(V + "/tools/demolib.py", d)
    open(d + "/demo.py", "w").write("from demolib import *\n\n" + demo.strip()
                                    + "\n\ndone()\n")
    open(d + "/demo.sh", "w").write(
        "#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2\n"
        "exec /opt/phd-venv/bin/python \"$(dirname \"$0\")/demo.py\"\n")
    os.chmod(d + "/demo.sh", 0o755)
