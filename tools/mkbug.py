#!/usr/bin/env python3
"""mk(id, property, file, [(old, new)], needs, breaks, demo): write seeded/ID from textual replacements in /repo's file (which is not touched)"""
import json, subprocess, os, tempfile, shutil
def mk(id, prop, file, edits, needs, breaks, demo):
    src = open("/repo/" + file).read()
    t = src
    for old, new in edits:
        assert t.count(old) == 1, (id, t.count(old), old)
        t = t.replace(old, new)
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp()
    for s, c in (("a", src), ("b", t)):
        os.makedirs(os.path.dirname(f"{w}/{s}/{file}"))
        open(f"{w}/{s}/{file}", "w").write(c)
    diff = subprocess.run(["git", "diff", "--no-index", "--no-prefix", f"a/{file}", f"b/{file}"], capture_output=True, text=True, cwd=w).stdout
    shutil.rmtree(w)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(demo)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
