import re

import c13
import com
import cover
import load
import poly as P
from poly import Top
from scen import *

RULE = "no object of static storage is writable or remembers a value of an earlier call; nothing reachable from the entry points reads a clock, a random source, the environment or a file, or writes a file; the problem given to an entry point is left as it was"
EXPLAIN = "whole-program rules over the type-checked AST (every variable of static storage, every function reachable in the call graph) and, for every analysed configuration of every entry point, comparison of the abstract memory before and after the call and of every access to static storage"
FLOOR = 1500
ASSUME = ["external libraries (linear algebra, curves, contact cones, back ends) have no state visible to this library other than the objects passed to them", "printing to the standard streams is not an effect"]

ENTRIES = ["bezier_com_traj::computeCOMTraj", "bezier_com_traj::computeCOMTrajFixedSize", "bezier_com_traj::solve0step", "bezier_com_traj::solveEndEffector",
           "solvers::solve", "tsid::solvers::EiquadprogFast::solve_quadprog"]
BAD = [("random source", r"^(std::)?(rand|srand|random|srandom|drand48|rand_r|arc4random\w*|getrandom)$|std::random_device|default_random_engine|::(Random|setRandom)$"),
       ("clock", r"^(std::)?(time|clock|gettimeofday|clock_gettime|localtime|gmtime)$|std::chrono::.*::now$|::tic$|::toc$"),
       ("environment", r"^(std::)?(getenv|secure_getenv|setenv|putenv|getpid|gettid|pthread_self)$|std::this_thread::"),
       ("file", r"^(std::)?(fopen|freopen|open|creat|remove|unlink|rename|system|popen|tmpfile)$|basic_[io]?fstream|std::filesystem::"),
       ("process", r"^(std::)?(exit|abort|_exit|quick_exit|fork|signal|raise|longjmp)$")]


def refs(e, out):
    """functions named anywhere in a tree"""
    if isinstance(e, dict):
        f = e.get("fn")
        if isinstance(f, dict) and "n" in f:
            out.append((f.get("u"), f["n"], e.get("l")))
        for v in e.values():
            if isinstance(v, (dict, list)):
                refs(v, out)
    elif isinstance(e, list):
        for x in e:
            refs(x, out)


def program_rules(ck, prog):
    for k, g in sorted(prog.globals.items(), key=lambda x: (x[1]["n"], x[0])):
        w = "%s:%d" % (com.rel(g["file"]), g["l"])
        if "/tu/" in g["file"]:
            continue
        ck.require(g["const"] or not g["written"], "static/" + g["n"], w, "variable %s has static storage and can be written: calls share it" % g["n"])
        if g["local"]:
            ck.require(not uses_locals(g.get("init")), "static/" + g["n"], w, "static variable %s is initialised from values of the first call" % g["n"])
    # call graph
    todo, seen = [], {}
    roots = [f for n in ENTRIES for f in prog.fn(n)] + [f for n, fs in prog.byname.items() if n.startswith("bezier_com_traj::compute") or n.startswith("bezier_com_traj::evaluate") for f in fs]
    if len({f["n"] for f in roots} & set(ENTRIES)) < len(ENTRIES):
        raise load.Broken("entry points missing: %s" % (set(ENTRIES) - {f["n"] for f in roots}))
    for f in roots:
        seen[f["u"]] = None
        todo.append(f)
    edges = 0
    inits = {}
    for k, g in prog.globals.items():
        o = []
        refs(g.get("init"), o)
        inits[k] = o
    while todo:
        f = todo.pop()
        out = []
        refs({k: v for k, v in f.items() if k not in ("u",)}, out)
        # tables of functions are reached through the variables that hold them
        for u, n, l in out + ([x for k, o in inits.items() if k[0] == f["tu"] for x in o] if f["u"] in [r["u"] for r in roots] else []):
            edges += 1
            for what, rx in BAD:
                bad = re.search(rx, n)
                ck.require(not bad, "effect/" + what, "%s:%d" % (com.rel(f["file"]), l or f["l"]), "%s uses %s (%s): reachable from the entry points" % (f["n"], n, what))
            if u in prog.funcs and u not in seen:
                seen[u] = f["u"]
                todo.append(prog.funcs[u])
    for u in seen:
        f = prog.funcs[u]
        ck.funcs[u] = "%s (%s:%d)" % (f["n"], com.rel(f["file"]), f["l"])
    ck.notes["call_graph_edges"] = edges
    ck.notes["static_variables"] = len(prog.globals)


def same(eng, a, b):
    if a is b:
        return True
    a, b = eng.pick(a), eng.pick(b)
    if isinstance(a, Mat) and isinstance(b, Mat):
        return (a.r, a.c) == (b.r, b.c) and all(x is y or same(eng, x, y) for x, y in zip(a.d, b.d))
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.t == b.t and set(a.f) == set(b.f) and all(same(eng, a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Vec) and isinstance(b, Vec):
        return len(a.v) == len(b.v) and all(same(eng, x, y) for x, y in zip(a.v, b.v))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.ref is b.ref or (a.ref is not None and b.ref is not None and a.ref.cell == b.ref.cell and a.ref.path == b.ref.path)
    if isinstance(a, (int, float, P.Poly)) and isinstance(b, (int, float, P.Poly)):
        return P.equal(a, b)
    return a == b


def changed(eng, a, b, path=""):
    """path of the first part that differs"""
    a, b = eng.pick(a), eng.pick(b)
    if isinstance(a, Obj) and isinstance(b, Obj):
        for k in sorted(a.f):
            if k in b.f and not same(eng, a.f[k], b.f[k]):
                return changed(eng, a.f[k], b.f[k], path + "." + k)
    if isinstance(a, Vec) and isinstance(b, Vec) and len(a.v) == len(b.v):
        for i, (x, y) in enumerate(zip(a.v, b.v)):
            if not same(eng, x, y):
                return changed(eng, x, y, "%s[%d]" % (path, i))
    return path or "value"


def one(ck, it):
    item, success = it
    r, key = cover.run_one(ck, item, success=success)
    w = r.where()
    ck.ok()
    com.bad_state(ck, r.eng, key, r.name)
    for c, v in r.mem0.items():
        n = r.eng.mem.get(c, v)
        ck.require(n is v or same(r.eng, v, n), key + "/input", w, "%s: the call changes its input: %s" % (r.name, "" if n is v else changed(r.eng, v, n)))
    for kind, loc, msg, fn in r.eng.events:
        ck.require(kind != "random", key + "/random", com.rel(loc), "%s: %s in %s" % (r.name, msg, fn))


def run(ck):
    prog = com.program([c13.TU])
    ck.units = len(prog.tus)
    program_rules(ck, prog)
    out = []
    for it in cover.scenarios(False):
        if it[0] == "com" and not ck.thorough and it[1].n() == 3:
            continue
        out.append((it, True))
        if it[0] in ("zero", "ee"):
            out.append((it, False))
    ck.map(one, out)
