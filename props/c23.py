"""The public interface: what an overload of solve, or an omitted argument, stands for."""
import os

import com
import cover
import oracle as O
import load
import oracle as O
import poly as P
from scen import *
from c16 import clean

RULE = "each overload of solve gives the solver the inequalities, equalities, cost, guess and bounds it was given, and nothing for those it does not take; an omitted solver is the quadratic one, an omitted time step the continuous formulation, an omitted number of points three, an omitted cost flag the velocity cost"
EXPLAIN = "callers that omit what may be omitted are analysed as the compiler completes them; the values reaching the solver, respectively the planner, are compared with what was given"
FLOOR = 60
ASSUME = []
TU = os.path.join(load.HERE, "tu", "api.cpp")
B = "bezier_com_traj::"
SHAPES = [(1, 0, 3), (4, 0, 3), (5, 2, 6), (2, 3, 7), (0, 1, 4), (0, 0, 3), (3, 6, 15)]


# caller -> what it gives
SOLVE = {"solve_3": ("Ab", "Hg", "x"), "solve_4": ("Ab", "Hg", "x", "solver"),
         "solve_6": ("Ab", "Dd", "Hg", "lo", "hi", "x"), "solve_7": ("Ab", "Dd", "Hg", "lo", "hi", "x", "solver"),
         "solve_lim": ("A", "b", "H", "g", "x", "lo", "hi"), "solve_lim_s": ("A", "b", "H", "g", "x", "lo", "hi", "solver"),
         "solve_eq": ("A", "b", "D", "d", "H", "g", "x"), "solve_eq_s": ("A", "b", "D", "d", "H", "g", "x", "solver")}


def pair(a, b):
    return Obj("std::pair", {"first": a, "second": b})


def overload(ck, it):
    _, k, (m, p, n), bounds, solver = it
    has = SOLVE[k]
    r = com.Run(ck, "solve(%s): %d inequalities, %d equalities, %d variables, %s" % (", ".join(has), m, p, n, bounds))
    A, b, D, d = mat("A", m, n), vec("b", m), mat("D", p, n), vec("d", p)
    H, g, x = mat("H", n, n), vec("g", n), vec("x", n)
    lo, hi = (vec("lo", n), vec("hi", n)) if bounds == "bounds" else (Mat(0, 1, []), Mat(0, 1, []))
    seen = []

    def hook(eng, e, obj, args):
        seen.append([eng.rv(a) for a in args])
        f = r.cap.hook(eng, e, obj, args)
        return f

    def args(e):
        o = lambda v: e.new(v)
        val = {"Ab": pair(A, b), "Dd": pair(D, d), "Hg": pair(H, g), "A": A, "b": b, "D": D, "d": d, "H": H, "g": g, "x": x, "lo": lo, "hi": hi}
        return [e.prog.enumval[solver] if n == "solver" else o(val[n]) for n in has]
    eq, bd = "Dd" in has or "D" in has, "lo" in has
    r.go("verif::" + k, len(has), args, hooks={"solvers::solve": hook}, prog=program([TU]))
    key = "overload"
    if not r.usable(key, single=False):
        return
    w = r.where()
    for u in r.eng.visited:
        f = r.eng.prog.funcs[u]
        if f["n"] == B + "solve":
            w = "%s:%d" % (com.rel(f["file"]), f["l"])
    if not ck.require(len(seen) == 1, key + "/calls", w, "%s: the solver is reached %d times" % (r.name, len(seen))):
        return
    want = [A, b, D if eq else Mat(0, n, []), d if eq else Mat(0, 1, []), H, g, x, lo if bd else Mat(0, 1, []), hi if bd else Mat(0, 1, [])]
    for got, exp, nm in zip(seen[0], want, ("inequality matrix", "inequality vector", "equality matrix", "equality vector", "cost matrix", "cost vector", "initial guess", "lower bounds", "upper bounds")):
        if not ck.require(isinstance(got, Mat) and got.r == exp.r and (got.c == exp.c or not got.r), key + "/" + nm, w, "%s: %s of size %sx%s instead of %dx%d" % (r.name, nm, getattr(got, "r", "?"), getattr(got, "c", "?"), exp.r, exp.c)):
            continue
        com.same_vec(ck, key + "/" + nm, w, got, list(exp.d), "%s: %s" % (r.name, nm))
    s = seen[0][9]
    ck.require(s == r.eng.prog.enumval[solver if "solver" in has else "SOLVER_QUADPROG"], key + "/solver", w, "%s: solver %s" % (r.name, s))
    ck.require(r.eng.pick(r.res).f["success_"] is True, key + "/result", w, "%s: the solver's result is not returned" % r.name)


def omitted(ck, it):
    _, caller, np, callee, checks = it
    r = com.Run(ck, "%s with omitted arguments" % callee)
    seen = []

    def hook(eng, e, obj, args):
        seen.append([eng.rv(a) for a in args])
        return eng.load(make(eng, B + "ResultDataCOMTraj"))
    box = {}

    def args(e):
        a = [make(e, B + "ProblemData")]
        if callee == "solveEndEffector":
            return a + [e.new(Obj("verif_path", {})), P.sym("T", pos=True), P.sym("w", pos=True)]
        a.append(e.new(Vec([P.sym("T", pos=True)])) if callee == "solve0step" else e.new(vec("T", 2)))
        if np == 3:
            a.append(P.sym("step", pos=True))
        return a
    r.go("verif::" + caller, np, args, hooks={B + callee: hook}, prog=program([TU]))
    key = "omitted"
    if not r.usable(key, single=False):
        return
    w = r.where()
    for d in load_decls(r.eng.prog, B + callee):
        w = d
    if not ck.require(len(seen) == 1, key + "/calls", w, "%s: called %d times" % (r.name, len(seen))):
        return
    for i, nm, good in checks:
        v = seen[0][i] if i < len(seen[0]) else Top("missing")
        if not isinstance(v, (int, float)):
            raise Abort("%s: %s is %r" % (r.name, nm, v))
        ok = good(v, r.eng.prog.enumval)
        ck.require(ok, key + "/" + nm, w, "%s: %s = %s" % (r.name, nm, v))


def chosen(ck, it):
    """the back end the caller selects solves the problem, the quadratic solver where there is no choice"""
    _, scen, solver = it
    r, key = cover.run_one(ck, scen)
    r.name += ", solver %d" % solver
    key = "back end/" + key
    if not r.usable(key):
        return
    s = r.cap.calls[0]["args"][9]
    if not isinstance(s, (int, float)):
        raise Abort("%s: the solver is %r" % (r.name, s))
    ck.require(s == solver, key, com.rel(r.cap.calls[0]["loc"]), "%s: the problem is given to solver %s" % (r.name, s))


def load_decls(prog, name):
    return ["%s:%d" % (com.rel(f["file"]), f["l"]) for f in prog.funcs.values() if f["n"] == name]


NEG = lambda v, en: v <= 0
QP = lambda v, en: v == en["SOLVER_QUADPROG"]
OMITTED = [("com_2", 2, "computeCOMTraj", ((2, "time step", NEG), (3, "solver", QP))), ("com_3", 3, "computeCOMTraj", ((3, "solver", QP),)),
           ("fixed_2", 2, "computeCOMTrajFixedSize", ((2, "points per phase", lambda v, en: v == 3),)),
           ("zero_2", 2, "solve0step", ((2, "time step", NEG),)), ("ee_4", 4, "solveEndEffector", ((4, "velocity cost", lambda v, en: v is True or v == 1),))]


def one(ck, it):
    globals()[it[0]](ck, it)


def run(ck):
    ck.units = len(program([TU]).tus)
    out = [("overload", k, s, b, v) for k, h in SOLVE.items() for s in SHAPES for b in (("none", "bounds") if "lo" in h else ("none",)) for v in (("SOLVER_QUADPROG", "SOLVER_GLPK") if "solver" in h else ("SOLVER_QUADPROG",))]
    out += [("omitted",) + o for o in OMITTED]
    for fam in O.COM:
        for m, kw in ((("step", (1.5, 2.25)), {}), (("step", (2.5,)), {"acc": True}), (("cont", 1), {}), (("cont", 2), {"nrows": 1}), (("cont", 1), {"rep": "FORCE"})):
            if m == ("cont", 2) and O.Spec(O.COM[fam]).deg > 5:
                continue
            for v in (1, 2):
                out.append(("chosen", ("com", com.Cfg(fam, m, solver=v, **kw)), v))
                out.append(("chosen", ("com", com.Cfg(fam, m, solver=v, cost="DISTANCE_TRAVELED", **kw)), v))
        for n in (1, 2):
            out.append(("chosen", ("com", com.Cfg(fam, ("fixed", n, 2))), 1))
    for ang in (False, True):
        for ratio in (None, 2.5):
            out.append(("chosen", ("zero", (ang, ratio, 2, 1, 1, False)), 1))
    for fam in O.EFF:
        out.append(("chosen", ("ee", (fam, 0.5)), 1))
    ck.map(one, out)
