"""No division by zero, no root of a negative number, no infinite number in a problem or a result."""
import math
import random

import c13
import com
import cover
import oracle as O
import poly as P
from scen import *

RULE = "every divisor of the planners is a number other than 0 or a quantity that cannot vanish (product of durations, steps, bounds, or guarded by a test on the path), every radicand cannot be negative, and no number handed to the solver or returned is infinite or undefined"
EXPLAIN = "every entry point is analysed with symbolic data and with degenerate data (coinciding points, zero velocities, zero rows, no gravity, zero weights); each division and root met on a path is an obligation, decided from the sign of its operand as a polynomial of the data and the tests passed before"
FLOOR = 3000
ASSUME = ["durations, time steps, masses and acceleration bounds are positive", "rows of a stability cone that are not identically zero are not zero by accident (zero rows are analysed separately)", "the contact library and the back ends are outside"]


def at(p, env):
    """value of p, None when it has parts that cannot be evaluated"""
    p = P.num(p)
    if P.isnum(p):
        return float(p)
    if not isinstance(p, P.Poly):
        return None
    r = 0.0
    for m, c in p.t.items():
        v = c
        for s, e in m:
            y = P.SYMS[s]
            if s in env:
                x = env[s]
            elif y.kind == "sqrt":
                x = at(y.args[0], env)
                x = None if x is None or x < 0 else math.sqrt(x)
            elif y.kind == "norm":
                x = [at(a, env) for a in y.args]
                x = None if None in x else math.sqrt(sum(a * a for a in x))
            elif y.kind == "abs":
                x = at(y.args[0], env)
                x = None if x is None else abs(x)
            elif y.kind == "inv":
                x = at(y.args[0], env)
                x = None if not x else 1 / x
            else:
                x = None
            if x is None or x == 0 and e < 0:
                return None
            v *= x ** e
        r += v
    return r


def inputs(p):
    return sorted(s for s in P.syms_of(p) if P.SYMS[s].kind == "in")


def witness(kind, b, path):
    """admissible data for which the operand is zero (or takes both signs), respectively negative"""
    syms = set(inputs(b))
    for a, _ in path:
        if a.p is None:
            return None
        syms |= set(inputs(a.p))
    syms = sorted(syms)
    if any(P.SYMS[s].name in ("T",) for s in syms) and P.SIGNSUB:
        return None
    rnd = random.Random(1)

    def admissible(env):
        for a, v in path:
            x = at(a.p, env)
            if x is None or ((x > 0) if a.kind == "gt" else (x == 0)) is not v:
                return False
        return True
    signs = {}
    for k in range(60):
        env = {}
        same = rnd.uniform(-2, 2)
        for s in syms:
            y = P.SYMS[s]
            if y.pos:
                env[s] = 1.0 if k < 2 else rnd.uniform(0.1, 2)
            elif y.nonzero:
                env[s] = 1.0
            else:
                env[s] = (0.0, 1.0, same)[k % 3] if k < 12 else rnd.uniform(-2, 2)
        if not admissible(env):
            continue
        x = at(b, env)
        if x is None:
            continue
        if kind == "radicand":
            if x < -1e-9:
                return env
            continue
        if x == 0:
            return env
        signs[x > 0] = env
        if len(signs) == 2:
            return env
    return None


def describe(env):
    return ", ".join("%s = %.3g" % (P.SYMS[s].name, env[s]) for s in sorted(env)[:6])


def finite(x):
    x = P.num(x)
    if P.isnum(x):
        return math.isfinite(x)
    if isinstance(x, P.Poly):
        return all(math.isfinite(c) for c in x.t.values())
    return True


def judge(ck, r, key):
    ck.ok(r.eng.ndiv)
    for (kind, loc, _), (b, path, fn) in r.eng.divs.items():
        what = "division by" if kind == "divisor" else "square root of"
        if P.isnum(b):
            ck.require(False, key + "/" + kind, com.rel(loc), "%s: %s %s in %s" % (r.name, what, b, fn))
            continue
        if not isinstance(b, P.Poly):
            continue
        if any(P.SYMS[s].name.startswith("H") for s in inputs(b)):
            continue                    # assumption on generic rows; identically zero rows have their own configurations
        env = witness(kind, b, path)
        if env is None:
            ck.notes["undecided_divisions"] = ck.notes.get("undecided_divisions", 0) + 1
            continue
        ck.require(False, key + "/" + kind, com.rel(loc), "%s: %s %s in %s, which is not excluded: %s" % (r.name, what, P.pstr(b, 160), fn, describe(env) or "no data"))
    names = ("inequality matrix", "inequality vector", "equality matrix", "equality vector", "cost matrix", "cost vector", "initial guess", "lower bounds", "upper bounds")
    for c in r.cap.calls:
        for i, nm in enumerate(names):
            for x in cover.numbers(r.eng, c["args"][i]):
                if not ck.require(finite(x), key + "/finite", com.rel(c["loc"]), "%s: an entry of the %s given to the solver is not a finite number" % (r.name, nm)):
                    break
    if r.throw is None:
        for x in cover.numbers(r.eng, r.res):
            if not ck.require(finite(x), key + "/finite", r.where(), "%s: a number of the result is not finite" % r.name):
                break


def one(ck, it):
    kind, a, over = it
    if kind == "ee":
        r = c13.run_ee(ck, a[0], a[1] if a[1] != "symbolic" else P.sym("weight"), **over)
        key = "end effector/" + a[0]
        if over:
            r.name += " %s" % (over,)
    else:
        r, key = cover.run_one(ck, (kind, a), **over)
        r.name += "".join(", %s=%s" % k for k in sorted(over.items())) if kind != "com" else ""
    if r.throw is not None or r.eng.throws:
        if not r.usable(key, single=False):
            return
    judge(ck, r, key)


DEGENERATE = [{"like": (("c1_", "c0_"),)}, {"zero": ("c0_", "c1_")}, {"zero": ("dc0_", "dc1_", "ddc0_", "ddc1_", "j0_", "j1_")},
              {"zero": ("c0_", "dc0_", "ddc0_", "j0_", "j1_", "ddc1_", "dc1_", "c1_")}, {"hzero": (0,)}, {"kzero": (0,)}, {"still": True},
              {"still": True, "hzero": (0, 1), "kzero": (0,), "zero": ("c0_", "dc0_", "ddc0_", "j0_", "j1_", "ddc1_", "dc1_", "c1_")},
              {"like": (("c1_", "c0_"), ("dc1_", "dc0_"), ("ddc1_", "ddc0_"))}, {"red": 0}]


def run(ck):
    ck.units = len(com.program([c13.TU]).tus)
    out = []
    for it in cover.scenarios(ck.thorough):
        if it[0] != "ee" and (ck.thorough or it[0] != "com" or it[1].n() < 3 or it[1].mode[0] == "step"):
            out.append(it + ({},))
    for fam in O.COM:
        stop = O.Spec(O.COM[fam]).stop
        for d in DEGENERATE:
            d = dict(d)
            if stop:
                d["zero"] = tuple(set(d.get("zero", ())) | {"dc1_"})
                d["like"] = tuple(x for x in d.get("like", ()) if x[0] != "dc1_")
            for m, kw in ((("step", (2.5, 1.5)), {"acc": True}), (("cont", 1), {}), (("fixed", 2, 2), {"cost": "DISTANCE_TRAVELED"}), (("cont", 1), {"rep": "FORCE"}), (("cont", 1), {"cost": "DISTANCE_TRAVELED", "rep": "FORCE"})) + (() if O.COM[fam] & END_VEL else ((("cont", 1), {"cost": "TARGET_END_VELOCITY"}),)):
                out.append(("com", com.Cfg(fam, m, **dict({"nrows": 2, "nkin": 1}, **dict(kw, **d))), {}))
    for ang in (False, True):
        for ratio in (None, 3.5):
            for d in DEGENERATE + [{"zero": ("l0_",)}]:
                if "nkin" in d:
                    continue
                out.append(("zero", (ang, ratio, 2, 1, 1, False), dict(d)))
    for fam in O.EFF:
        for w in (0.0, 0.5, 1.0, "symbolic"):
            out.append(("ee", (fam, w), {}))
        for d in ({"zero": ("c0_", "c1_")}, {"like": (("c1_", "c0_"),)}, {"zero": tuple(VECS)}):
            out.append(("ee", (fam, 0.5), d))
    ck.map(one, out)
