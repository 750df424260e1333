"""Builds the exporter when needed, exports every translation unit of /repo's
current tree (type-resolved AST + CFG) and loads the merged program."""
import glob
import hashlib
import os
import time
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(HERE, ".cache")
TOOLSRC = os.path.join(HERE, "tool", "astx.cpp")


class Broken(Exception):
    """the analysis itself cannot run (not a verdict on the code)"""


def _sha(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def tool():
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, "astx-" + _sha(TOOLSRC)[:12])
    if os.path.exists(out):
        return out
    tmp = "%s.%d" % (out, os.getpid())
    cmd = ["g++", "-std=c++17", "-O0", "-fno-rtti", "-I/usr/lib/llvm-18/include",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_LIMIT_MACROS", "-D_GNU_SOURCE", TOOLSRC, "-o", tmp,
           "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib", "-lLLVM-18",
           "-Wl,-rpath,/usr/lib/llvm-18/lib"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken("exporter does not build:\n" + r.stdout[-3000:])
    os.replace(tmp, out)
    return out


def flags():
    """compile flags of the library, with the dependency headers found where the sandbox keeps them"""
    inc = []
    main = sorted(glob.glob("/opt/bezdeps/main/lib/python3*/site-packages"))
    hcd = sorted(glob.glob("/opt/bezdeps/hcd/lib/python3*/site-packages"))
    if not main or not hcd:
        raise Broken("dependency headers not found under /opt/bezdeps")
    M = main[0] + "/cmeel.prefix/include"
    H = hcd[0] + "/cmeel.prefix/include"
    inc += [M, M + "/eigen3", H, H + "/cddlib", H + "/coin", M + "/cddlib", main[0] + "/numpy/core/include"]
    py = sorted(glob.glob("/usr/include/python3.*"))
    inc += py[:1]
    f = ["-std=gnu++17", "-O3", "-DNDEBUG", "-DUSE_GLPK_SOLVER=1", "-DBOOST_MPL_LIMIT_LIST_SIZE=30",
         "-DBOOST_MPL_LIMIT_VECTOR_SIZE=30", "-I" + REPO + "/include"]
    for i in inc:
        f += ["-isystem", i]
    f += ["-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-fsyntax-only", "-w", "-ferror-limit=5"]
    return f


def sources():
    src = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True))
    if not src:
        raise Broken("no sources under %s/src" % REPO)
    return src


def allfiles():
    out = []
    for d in ("src", "include", "python"):
        for p in sorted(glob.glob("%s/%s/**/*" % (REPO, d), recursive=True)):
            if os.path.isfile(p):
                out.append(p)
    return out


def export(tus, root=None, fl=None, light=False, errors=None):
    """errors: list that receives (source, diagnostics) for what does not parse, whose output is then None"""
    t = tool()
    fl = fl or flags()
    root = root or ":".join([REPO + "/src", REPO + "/include", REPO + "/python", HERE + "/tu"])
    files = allfiles()
    # a translation unit depends on itself and on the files that are not translation units of their own
    unit = lambda p: p.endswith((".cpp", ".cc", ".cxx", ".c"))
    mixed = any(l.lstrip().startswith("#") and "include" in l and any(x in l for x in (".cpp", ".cc\"", ".cxx", ".c\"")) for p in files for l in open(p, errors="replace"))
    key = _sha(TOOLSRC, *[p for p in files if mixed or not unit(p)])
    os.makedirs(CACHE, exist_ok=True)
    outs = []
    jobs = []
    for s in tus:
        k = hashlib.sha256((key + s + root + " ".join(fl) + ("light" if light else "") + _sha(s)).encode()).hexdigest()[:20]
        o = os.path.join(CACHE, "ast-%s-%s.json" % (os.path.basename(s), k))
        outs.append(o)
        if os.path.exists(o):
            os.utime(o)
        else:
            jobs.append((s, o))

    def run(job):
        s, o = job
        tmp = "%s.%d" % (o, os.getpid())
        r = subprocess.run([t, tmp, root, s, "--"] + fl, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, ASTX_LIGHT="1") if light else None)
        if r.returncode or not os.path.exists(tmp):
            return "%s: %s" % (s, r.stdout if len(r.stdout) < 6000 else r.stdout[:4000] + r.stdout[-2000:])
        os.replace(tmp, o)
        return None
    if jobs:
        with ThreadPoolExecutor(8) as ex:
            errs = [e for e in ex.map(run, jobs) if e]
        if errors is not None:
            errors += errs
            outs = [o if os.path.exists(o) else None for o in outs]
        elif errs:
            raise Broken("source does not parse:\n" + "\n".join(errs))
    prune()
    return outs


def prune(limit=400):
    """drop the oldest exports, but none that a check still running may be about to read"""
    now = time.time()
    fs = []
    for f in glob.glob(CACHE + "/ast-*.json"):
        try:
            fs.append((os.path.getmtime(f), f))
        except OSError:
            pass
    for t, f in sorted(fs)[:-limit]:
        if now - t < 1800:
            break
        try:
            os.unlink(f)
        except OSError:
            pass
