#!/usr/bin/env python3
"""Make /verif/seeded/<id>/ from a description of a planted bug.

Usage: mk.py BUG.py   where BUG.py defines ID, PROPERTY, NEEDS, BREAKS,
EDITS = [(file, old, new), ...] and MAIN (the demo's main.rs).
The patch is made in a scratch copy of the edited files, never in /repo.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
for path in sys.argv[1:]:
    b = runpy.run_path(path)
    out = f"/verif/seeded/{b['ID']}"
    os.makedirs(out, exist_ok=True)
    tmp = tempfile.mkdtemp()
    diff = ""
    files = {}
    for f, old, new in b["EDITS"]:
        src = files.get(f) or open(f"/repo/{f}").read()
        assert src.count(old) == 1, (b["ID"], f, src.count(old), old)
        files[f] = src.replace(old, new)
    for f, txt in files.items():
        p = f"{tmp}/{f.replace('/', '_')}"
        open(p, "w").write(txt)
        r = subprocess.run(["diff", "-u", "--label", f"a/{f}", "--label", f"b/{f}", f"/repo/{f}", p], capture_output=True, text=True)
        diff += f"diff --git a/{f} b/{f}\n" + r.stdout
    shutil.rmtree(tmp)
    open(f"{out}/patch.diff", "w").write(diff)
    open(f"{out}/main.rs", "w").write(b["MAIN"].lstrip())
    for n in ("Cargo.toml.in", "demo.sh"):
        shutil.copy(f"{here}/{n}", f"{out}/{n}")
    json.dump({"property": b["PROPERTY"], "needs": b["NEEDS"], "what_it_breaks": b["BREAKS"]}, open(f"{out}/meta.json", "w"), indent=1)
    open(f"{out}/meta.json", "a").write("\n")
