#!/usr/bin/env python3
"""mut.py PROP file 'old' 'new' [count]: runs PROP's quick check on a scratch copy with the edit applied"""
import os, shutil, subprocess, sys, tempfile
prop, f, old, new = sys.argv[1:5]
w = "/tmp/mutw"
import fcntl
lk = open("/tmp/mutw.lock", "w")
fcntl.flock(lk, fcntl.LOCK_EX)
shutil.rmtree(w, ignore_errors=True)
os.makedirs(w)
try:
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s" % w, shell=True)
    p = os.path.join(w, f)
    s = open(p).read()
    old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
    if s.count(old) < 1:
        print("NO MATCH", old); sys.exit(9)
    k = int(sys.argv[5]) if len(sys.argv) > 5 else 0
    parts = s.split(old)
    s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
    open(p, "w").write(s)
    for q in prop.split(","):
        r = subprocess.run([sys.executable, "/verif/check.py", q], env=dict(os.environ, VERIF_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ls = r.stdout.strip().split("\n")
        print("%s rc=%d %s || %s" % (q, r.returncode, ls[0][:220], ls[-1][:150]), flush=True)
finally:
    shutil.rmtree(w)
