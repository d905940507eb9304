#!/usr/bin/env python3
"""mkbug.mk(id, property, needs, breaks, edits, main): write seeded/<id> from edits [(file, old, new[, count])] to /repo's HEAD."""
import json, os, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def mk(id, prop, needs, breaks, edits, main, features=None):
    d = f"{V}/seeded/{id}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/demo/src")
    t = tempfile.mkdtemp(); subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
    for e in edits:
        f, old, new = e[:3]; p = f"{t}/r/{f}"; s = open(p).read()
        assert s.count(old) == (e[3] if len(e) > 3 else 1), (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", t + "/r", "diff"]).decode(); assert diff
    open(d + "/patch.diff", "w").write(diff); shutil.rmtree(t)
    shutil.copy(f"{V}/tools/template/demo.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
    c = open(f"{V}/tools/template/demo/Cargo.toml").read()
    if features: c = features(c)
    open(d + "/demo/Cargo.toml", "w").write(c); open(d + "/demo/src/main.rs", "w").write(main)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
