#!/usr/bin/env python3
"""ref.py BATCH[,BATCH] [PROP,...]: behaviour-preserving rewrites (refs.py) on a scratch copy; every check has to stay quiet"""
import os, shutil, subprocess, sys, tempfile
D = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, D)
import refs
import refs2
import refs3
import refs4
import refs5
ALL = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C23 C24 C25".split()
props = sys.argv[2].split(",") if len(sys.argv) > 2 else [p for p in ALL if os.path.exists("/verif/props/%s.py" % p.lower())]
w = "/tmp/refw"
import fcntl
lk = open("/tmp/refw.lock", "w")
fcntl.flock(lk, fcntl.LOCK_EX)
shutil.rmtree(w, ignore_errors=True)
os.makedirs(w)
bad = 0
try:
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s" % w, shell=True)
    for n in sys.argv[1].split(","):
        for e in refs.R[n]:
            p = os.path.join(w, e[0])
            s = open(p).read()
            if len(e) == 2:
                n2 = e[1](s)
                if n2 == s:
                    print("NO CHANGE", e[0])
                open(p, "w").write(n2)
                continue
            if s.count(e[1]) < 1 or (len(e) == 3 and s.count(e[1]) != 1):
                print("MATCHES %d: %s %s" % (s.count(e[1]), e[0], e[1][:80]))
                sys.exit(9)
            open(p, "w").write(s.replace(e[1], e[2]))
    for q in props:
        r = subprocess.run([sys.executable, "/verif/check.py", q], env=dict(os.environ, VERIF_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ls = r.stdout.strip().split("\n")
        print("%s %s rc=%d %s || %s" % (sys.argv[1], q, r.returncode, ls[0][:330] if r.returncode else "", ls[-1][:110 if not r.returncode else 400]), flush=True)
        bad += r.returncode != 0
finally:
    shutil.rmtree(w)
print("BAD", bad)
