#!/usr/bin/env python3
"""mk.py ID: builds seeded/ID from bugs/ID.py-like entries of bugs.py (edit list, demo source, meta)"""
import json, os, shutil, subprocess, sys, tempfile
D = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(D)
sys.dont_write_bytecode = True
sys.path.insert(0, D)
import bugs
for i in sys.argv[1:]:
    b = bugs.B[i]
    out = os.path.join(V, "seeded", i)
    os.makedirs(out, exist_ok=True)
    w = tempfile.mkdtemp()
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A -f && git -c user.email=a@b -c user.name=a commit -qm x" % (w, w), shell=True)
    for f, old, new in b["edits"]:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    open(out + "/patch.diff", "w").write(d)
    shutil.rmtree(w)
    open(out + "/demo.cpp", "w").write(b["demo"])
    for f, t in b["files"].items():
        open(out + "/" + f, "w").write(t)
    shutil.copy(D + "/d.hh", out + "/d.hh")
    open(out + "/demo.sh", "w").write(open(D + "/demo.sh").read().replace("EXTRA", b.get("extra", "")))
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
