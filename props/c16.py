import os

import com
import cover
import load
import oracle as O
import poly as P
from poly import Top
from scen import *
from c15 import same, changed

RULE = "a copy (constructed, assigned, or stored in the list of contacts) of contact data, constraints, problem or result has every field equal to the original's; contact data constructed as a copy own their contact phase; default objects have the documented values; flag operators are the bitwise operators"
EXPLAIN = "each copy, default construction and operator selected by the compiler is analysed on symbolic field values and compared field by field; the operators on constraint sets are propagated over every pair of single flags, their complements and the supported families"
FLOOR = 2500
ASSUME = []
TU = os.path.join(load.HERE, "tu", "carriers.cpp")


def go(ck, name, n, args, what):
    r = com.Run(ck, what)
    r.go("verif::" + name, n, args, prog=program([TU]))
    return r


def anchor(r, short):
    """where the operation under analysis is: the first repository function it reached"""
    for u in r.eng.visited:
        f = r.eng.prog.funcs[u]
        if "/tu/" not in f["file"] and short in f["n"]:
            return "%s:%d" % (com.rel(f["file"]), f["l"])
    return r.where()


def clean(ck, r, key):
    return r.usable(key, single=False)


def isnull(q):
    return isinstance(q, Ptr) and q.ref is None or isinstance(q, int) and q == 0


def deep(eng, v):
    """value with the pointed contact phases read"""
    v = eng.pick(v)
    if isinstance(v, Ptr):
        return deep(eng, eng.load(v.ref)) if v.ref is not None else Str("null")
    if isinstance(v, Obj):
        return Obj(v.t, {k: Str("null") if k == "contactPhase_" and isnull(eng.pick(x)) else deep(eng, x) for k, x in v.f.items()})
    if isinstance(v, Vec):
        return Vec([deep(eng, x) for x in v.v])
    return v


def result_obj(eng, tag):
    r = eng.load(make(eng, "bezier_com_traj::ResultDataCOMTraj"))
    f = dict(r.f)
    f["success_"] = tag == "a"
    f["cost_"] = P.sym("cost" + tag)
    f["x"] = vec("x" + tag, 3)
    for n in ("dc1_", "ddc1_"):
        f[n] = v3(n + tag)
    for n in ("c_of_t_", "dL_of_t_"):
        c = f[n]
        cf = dict(c.f)
        cf["wps"] = Vec([v3("%s%s%d" % (n, tag, i)) for i in range(3)])
        cf["T_max_"] = P.sym("Tm" + n + tag, pos=True)
        f[n] = Obj(c.t, cf)
    return eng.new(Obj(r.t, f))


def contact(eng, tag, phase=True, default=False, sizes=(2, 2, 1, 1)):
    eq = eng.new(equilibrium(tag, 2, 4, 0)) if phase else None
    cd = make(eng, "bezier_com_traj::ContactData", [Ptr(eq) if phase else NULL])
    co = dict(eng.load(cd).f)
    if not default:
        co["Kin_"] = mat("K" + tag, sizes[0], 3)
        co["kin_"] = vec("k" + tag, sizes[1])
        co["Ang_"] = mat("L" + tag, sizes[2], 3)
        co["ang_"] = vec("l" + tag, sizes[3])
    eng.store(cd, Obj(eng.load(cd).t, co))
    return cd


def constr(eng, tag):
    c = eng.load(make(eng, "bezier_com_traj::Constraints"))
    f = dict(c.f)
    f["flag_"] = 11 if tag == "a" else 27
    f["constraintAcceleration_"] = tag == "a"
    f["maxAcceleration_"] = P.sym("amax" + tag, pos=True)
    f["reduce_h_"] = P.sym("red" + tag, pos=True)
    return eng.new(Obj(c.t, f))


def prob(eng, tag):
    pd = problem(eng, 11 if tag == "a" else 27, 2, acc=tag == "a", angular=tag == "a", cost="DISTANCE_TRAVELED" if tag == "a" else "ACCELERATION", rep="FORCE" if tag == "a" else "DOUBLE_DESCRIPTION")
    o = eng.load(pd)
    f = dict(o.f)
    for k in VECS:
        f[k] = v3(k + tag)
    eng.store(pd, Obj(o.t, f))
    return pd


KINDS = {
    "contact": ("ContactData", lambda e, t: contact(e, t)),
    "constraints": ("Constraints", constr),
    "problem": ("ProblemData", prob),
    "result": ("ResultDataCOMTraj", result_obj),
    "solver": ("ResultData", lambda e, t: e.new(Obj("solvers::ResultData", {"success_": t == "a", "cost_": P.sym("cost" + t), "x": vec("x" + t, 4)}))),
}


def fields_same(ck, r, key, w, got, want, what):
    got, want = r.eng.pick(got), r.eng.pick(want)
    if not isinstance(got, Obj) or not isinstance(want, Obj):
        raise Abort("%s: not an object" % what)
    for k in sorted(want.f):
        if not ck.require(k in got.f, key, w, "%s: field %s is missing" % (what, k)):
            continue
        ok = same(r.eng, want.f[k], got.f[k])
        ck.require(ok, key + "/" + k, w, "%s: field %s is not that of the original" % (what, k))


def copies(ck, it):
    kind, how = it[1:3]
    short, mk = KINDS[kind]
    if len(it) > 3:
        mk = lambda e, t, mk=mk: contact(e, t, sizes=it[3] if t == "a" else it[3][::-1])
    box = {}
    what = "%s %s" % ({"copy": "copy of", "assign": "assignment of"}[how], short)
    if len(it) > 3:
        what += ", %d/%d kinematic and %d/%d angular rows" % it[3]

    def args(eng):
        a = mk(eng, "a")
        box["a0"] = deep(eng, eng.load(a))
        box["a"] = a
        if how == "copy":
            return [a]
        b = mk(eng, "b")
        box["b"] = b
        return [b, a]
    r = go(ck, "%s_%s" % (kind, how), 1 if how == "copy" else 2, args, what)
    key = "%s/%s" % (kind, how)
    w = anchor(r, short)
    if not clean(ck, r, key):
        return
    res = r.res if how == "copy" else r.eng.load(box["b"])
    fields_same(ck, r, key, w, deep(r.eng, res), box["a0"], what)
    fields_same(ck, r, key + "/original", w, deep(r.eng, r.eng.load(box["a"])), box["a0"], what + ", original afterwards")
    # constructed copies own their contact phase
    if how == "copy" and kind == "contact":
        p, q = [r.eng.pick(x).f["contactPhase_"] for x in (r.eng.load(box["a"]), r.res)]
        ck.require(isinstance(q, Ptr) and q.ref is not None and q.ref.cell != p.ref.cell, key + "/shared", w, "%s: the copy shares the contact phase of the original" % what)


def special(ck, it):
    _, what = it
    if what == "no phase":
        box = {}

        def args(eng):
            box["a"] = contact(eng, "a", phase=False)
            return [box["a"]]
        r = go(ck, "contact_copy", 1, args, "copy of contact data without contact phase")
        if clean(ck, r, "contact/no phase"):
            w = anchor(r, "ContactData")
            q = r.eng.pick(r.res).f["contactPhase_"]
            ck.require(isnull(q), "contact/no phase", w, "the copy of contact data without contact phase has one")
            fields_same(ck, r, "contact/no phase", w, deep(r.eng, r.res), deep(r.eng, r.eng.load(box["a"])), "copy of contact data without contact phase")
    elif what == "phase":
        box = {}

        def args(eng):
            box["q"] = Ptr(eng.new(equilibrium("a")))
            return [box["q"]]
        r = go(ck, "contact_of", 1, args, "contact data built on a contact phase")
        if clean(ck, r, "contact/of"):
            w = anchor(r, "ContactData")
            f = r.eng.pick(r.res).f
            empty_contact(ck, r, w, f, "contact data built on a contact phase")
            same_phase = isinstance(f["contactPhase_"], Ptr) and f["contactPhase_"].ref is not None and same(r.eng, deep(r.eng, f["contactPhase_"]), deep(r.eng, box["q"]))
            ck.require(same_phase, "contact/of", w, "contact data built on a contact phase does not refer to it")
    elif what == "contact":
        r = go(ck, "contact_default", 0, lambda e: [], "default contact data")
        if clean(ck, r, "contact/default"):
            f = r.eng.pick(r.res).f
            w = anchor(r, "ContactData")
            empty_contact(ck, r, w, f, "default contact data")
            ck.require(isnull(f["contactPhase_"]), "contact/default", w, "default contact data has a contact phase")
    elif what == "constraints":
        for name, n, args, flag in [("constraints_default", 0, lambda e: [], 1 | 2 | 8 | 16)] + [("constraints_of", 1, lambda e, v=v: [v], v) for v in sorted(set(O.COM.values()) | set(O.EFF.values()) | {0, 4096})]:
            r = go(ck, name, n, args, "%s constraints" % name)
            if clean(ck, r, "constraints/default"):
                f = r.eng.pick(r.res).f
                w = anchor(r, "Constraints")
                for k, v in (("flag_", flag), ("constraintAcceleration_", False), ("maxAcceleration_", 10.0), ("reduce_h_", 1e-3)):
                    ck.require(f[k] == v, "constraints/default/" + k, w, "%s: %s is %s instead of %s" % (name, k, f[k], v))
    elif what == "problem":
        r = go(ck, "problem_default", 0, lambda e: [], "default problem")
        if clean(ck, r, "problem/default"):
            f = r.eng.pick(r.res).f
            w = anchor(r, "ProblemData")
            for k in VECS:
                ck.require(isinstance(f[k], Mat) and all(P.isnum(x) and x == 0 for x in f[k].d), "problem/default/" + k, w, "default problem: %s is not zero" % k)
            ev = r.eng.prog.enumval
            for k, v in (("useAngularMomentum_", False), ("costFunction_", ev["ACCELERATION"]), ("representation_", ev["DOUBLE_DESCRIPTION"])):
                ck.require(f[k] == v, "problem/default/" + k, w, "default problem: %s is %s instead of %s" % (k, f[k], v))
            ck.require(len(f["contacts_"].v) == 0, "problem/default/contacts", w, "default problem has contacts")
    elif what == "result":
        r = go(ck, "result_default", 0, lambda e: [], "default result")
        if clean(ck, r, "result/default"):
            f = r.eng.pick(r.res).f
            w = anchor(r, "ResultDataCOMTraj")
            ck.require(f["success_"] in (False, 0), "result/default", w, "a default result is marked successful")
            for k in ("dc1_", "ddc1_"):
                ck.require(all(P.isnum(x) and x == 0 for x in f[k].d), "result/default/" + k, w, "default result: %s is not zero" % k)
            ck.require(f["x"].r == 0, "result/default/x", w, "default result has a solution")
    elif what == "solver":
        r = go(ck, "solver_of", 3, lambda e: [True, P.sym("c"), vec("x", 5)], "solver result built from values")
        if clean(ck, r, "solver/of"):
            f = r.eng.pick(r.res).f
            w = anchor(r, "ResultData")
            ck.require(f["success_"] in (True, 1) and P.equal(f["cost_"], P.sym("c")) and same(r.eng, f["x"], vec("x", 5)), "solver/of", w, "a solver result does not keep the values it is built from")
        r = go(ck, "solver_default", 0, lambda e: [], "default solver result")
        if clean(ck, r, "solver/default"):
            f = r.eng.pick(r.res).f
            ck.require(f["success_"] in (False, 0) and f["x"].r == 0, "solver/default", anchor(r, "ResultData"), "a default solver result is successful or has a solution")
    elif what == "add":
        box = {}

        def args(eng):
            box["p"] = prob(eng, "a")
            box["p0"] = deep(eng, eng.load(box["p"]))
            box["c"] = contact(eng, "new")
            box["c0"] = deep(eng, eng.load(box["c"]))
            return [box["p"], box["c"]]
        r = go(ck, "problem_add", 2, args, "contact added to a problem")
        if clean(ck, r, "problem/add"):
            w = anchor(r, "ContactData")
            cs = deep(r.eng, r.eng.load(box["p"])).f["contacts_"].v
            old = list(box["p0"].f["contacts_"].v)
            if ck.require(len(cs) == len(old) + 1, "problem/add", w, "%d contacts after adding one to %d" % (len(cs), len(old))):
                for i, (x, y) in enumerate(zip(cs, old + [box["c0"]])):
                    fields_same(ck, r, "problem/add", w, x, y, "contact %d after adding one" % i)


def empty_contact(ck, r, w, f, what):
    for k in ("kin_", "ang_"):
        ck.require(isinstance(f[k], Mat) and f[k].r == 0, "contact/default/" + k, w, "%s: has %s constraints" % (what, k))
    for k in ("Kin_", "Ang_"):
        ck.require(isinstance(f[k], Mat) and all(P.isnum(x) and x == 0 for x in f[k].d), "contact/default/" + k, w, "%s: %s is not zero" % (what, k))


OPS = {"f_or": lambda a, b: a | b, "f_and": lambda a, b: a & b, "f_xor": lambda a, b: a ^ b}


def flags(ck, it):
    _, op, vals = it
    prog = program([TU])
    for a in vals[0]:
        if op == "f_not":
            todo = [((a,), ~a)]
        elif op == "f_chain":
            todo = [((a, b, 8191 ^ b ^ (a << 1)), (a | b) ^ (8191 ^ b ^ (a << 1))) for b in vals[1]]
        else:
            todo = [((a, b), OPS[op.replace("_eq", "")](a, b)) for b in vals[1]]
        for args, want in todo:
            eng = engine(prog)
            f = prog.fn("verif::" + op, len(args))
            got = eng.rv(eng.call(f[0], list(args)))
            if not ck.require(got == want, "flags/" + op, next(("%s:%d" % (com.rel(prog.funcs[u]["file"]), prog.funcs[u]["l"]) for u in eng.visited if "/tu/" not in prog.funcs[u]["file"]), "include/hpp/bezier-com-traj/flags.hh:1"),
                              "operator %s on %s gives %s instead of %s" % (op, args, got, want)):
                return
        ck.absorb(eng)
    ck.scenario("operator %s" % op)


def one(ck, it):
    {"copy": copies, "special": special, "flags": flags}[it[0]](ck, it)


def run(ck):
    ck.units = len(program([TU]).tus)
    out = [("copy", k, h) for k in KINDS for h in ("copy", "assign") if (k, h) != ("contact", "assign")]
    # matrices and vectors are copied whatever the sizes of the others
    out += [("copy", "contact", "copy", z) for z in ((3, 0, 3, 0), (2, 2, 3, 0), (3, 0, 1, 1), (0, 0, 3, 0), (3, 0, 0, 0), (0, 3, 0, 2), (0, 0, 0, 0), (90, 90, 0, 0), (0, 0, 75, 75), (40, 40, 40, 40))]
    out += [("special", w) for w in ("no phase", "phase", "contact", "constraints", "problem", "result", "solver", "add")]
    base = [1 << i for i in range(13)]
    vals = sorted(set([0, 8191] + base + [8191 ^ b for b in base] + list(O.COM.values()) + list(O.EFF.values())))
    few = vals if ck.thorough else base + [0, 8191, 255, 8191 ^ 1, 8191 ^ 16, 27, 59]
    for op in ("f_or", "f_and", "f_xor", "f_or_eq", "f_and_eq", "f_xor_eq", "f_chain", "f_not"):
        out.append(("flags", op, (vals, few)))
    ck.map(one, out)
