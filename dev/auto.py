#!/usr/bin/env python3
"""auto.py OUT SEED N [FILE...]: random one-line mutants of the sources, each given to the checks until one reports it; survivors are listed in OUT"""
import glob, os, random, re, shutil, subprocess, sys, tempfile
out, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rnd = random.Random(seed)
os.chdir("/repo")
files = sys.argv[4:] or sorted(glob.glob("src/*.cpp") + glob.glob("include/**/*.h*", recursive=True) + ["python/bezier_com_traj.cpp"])
SW = [("first", "second"), ("c0_", "dc0_"), ("dc0_", "ddc0_"), ("c1_", "dc1_"), ("dc1_", "ddc1_"), ("rows", "cols"), ("Kin_", "Ang_"), ("kin_", "ang_"), ("true", "false"),
      ("j0_", "j1_"), ("begin", "end"), ("i", "j"), ("maxAcceleration_", "reduce_h_"), ("row", "col"), ("head", "tail"), ("front", "back"), ("CI", "CE"), ("ci0", "ce0"),
      ("minBounds", "maxBounds"), ("A", "D"), ("b", "d"), ("g", "c"), ("H", "h"), ("T", "t"), ("pi", "T"), ("wps", "pi"), ("x", "y")]
OPS = [(" + ", " - "), (" - ", " + "), (" * ", " / "), (" / ", " * "), (" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "),
       (" && ", " || "), (" || ", " && "), (" += ", " = "), (" += ", " -= "), ("-", ""), ("!", ""), ("++", "--")]


def mutants():
    l = []
    for f in files:
        src = open(f).read().split("\n")
        blk = False
        for i, s in enumerate(src):
            t = s.strip()
            if "/*" in t and "*/" not in t:
                blk = True
            if blk:
                blk = "*/" not in t
                continue
            if not t or t.startswith(("//", "#", "*", "assert", "using", "template", "typedef", "namespace", "std::cout", "}")) or "std::cout" in t or "assert(" in t:
                continue
            code = s.split("//")[0]
            for a, b in OPS:
                for m in re.finditer(re.escape(a), code):
                    l.append((f, i, code[:m.start()] + b + code[m.end():]))
            for m in re.finditer(r"(?<![\w.])\d+(\.\d*)?(?![\w.])", code):
                v = m.group(0)
                w = str(float(v) + 1) if "." in v else str(int(v) + 1)
                l.append((f, i, code[:m.start()] + w + code[m.end():]))
                if "." not in v and int(v) > 0:
                    l.append((f, i, code[:m.start()] + str(int(v) - 1) + code[m.end():]))
            for a, b in SW:
                for x, y in ((a, b), (b, a)):
                    for m in re.finditer(r"\b%s\b" % x, code):
                        l.append((f, i, code[:m.start()] + y + code[m.end():]))
            if re.match(r"^[\w>.()\[\]:-]+ *(=|\+=|\(|<<|\.)[^{]*;$", t) and not re.match(r"^(const|int|double|auto|return|bool|std::\w+<)\b", t) or t in ("break;", "continue;"):
                l.append((f, i, ""))
    return l


ms = mutants()
byf = {}
for m in ms:
    byf.setdefault(m[0], []).append(m)
print(len(ms), {k: len(v) for k, v in byf.items()}, flush=True)
picked = []
fs = sorted(byf)
while len(picked) < n:
    f = rnd.choice(fs)
    m = rnd.choice(byf[f])
    if m not in picked:
        picked.append(m)
ALL = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C23".split()
if os.environ.get("AUTO_PROPS"):
    ALL = os.environ["AUTO_PROPS"].split(",")
FIRST = {"python": ["C18"], "waypoints": ["C01"], "cost": ["C10", "C09"], "solver": ["C12", "C20", "C19"], "end_eff": ["C08", "C13", "C16"], "computeCOM": ["C05", "C06", "C07"], "eiquad": ["C17", "C14", "C20"], "solve_0": ["C02", "C05"]}
w = tempfile.mkdtemp(prefix="auto")
env = dict(os.environ, VERIF_REPO=w)
kills = {}
try:
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s" % w, shell=True)
    for k, (f, i, new) in enumerate(picked):
        p = os.path.join(w, f)
        s0 = open(p).read()
        L = s0.split("\n")
        old = L[i]
        L[i] = new
        open(p, "w").write("\n".join(L))
        first = [q for a, q in FIRST.items() if a in f]
        first = [[q for q in x if q in ALL] for x in first]
        order = (first[0] if first else []) + [q for q in ALL if not first or q not in first[0]]
        res, odd = None, []
        for q in order:
            r = subprocess.run([sys.executable, HERE + "/check.py", q], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if "does not parse" in r.stdout:
                res = "noparse"
                break
            if r.returncode == 1:
                res = q
                break
            if r.returncode != 0:
                odd.append(q + ":" + r.stdout.strip().split("\n")[-1][:160])
        open(p, "w").write(s0)
        kills[res] = kills.get(res, 0) + 1
        with open(out, "a") as o:
            if res is None:
                o.write("SURVIVOR %s:%d\n   - %s\n   + %s\n   %s\n" % (f, i + 1, old.strip(), new.strip(), odd))
            elif odd:
                o.write("ODD %s:%d killed by %s\n   - %s\n   + %s\n   %s\n" % (f, i + 1, res, old.strip(), new.strip(), odd))
        print(k, f, i + 1, res, kills, flush=True)
finally:
    shutil.rmtree(w)
