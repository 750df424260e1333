import math

import com
import load
import oracle as O
import poly as P
import wp
from scen import *

RULE = "value-flow polynomials of the symbolic points, velocity, acceleration and jerk control points and of the evaluators of the end-effector curves = the successive derivatives of the one curve defined by the boundary conditions; velocity cost = its squared velocity integral"
EXPLAIN = "the families with one, three and five free points are analysed with symbolic data, duration and instant, with the constant points supplied or left to be computed"
FLOOR = 700
ASSUME = ["the control points of velocity and acceleration may be supplied at any degree; decimal coefficients of the velocity cost are compared with a relative tolerance of 1e-5"]

TOL = 1e-6


def ders(cps, T):
    out = [cps]
    for _ in range(3):
        out.append(O.derive(out[-1], T))
    return out


def one(ck, item):
    fam, what, given = item
    flag = O.EFF[fam]
    spec = O.Spec(flag)
    T = P.sym("T", pos=True)
    u = P.sym("u")
    xs = spec.var_list()
    data = {n: v3(n) for n in VECS}
    cps = spec.points(data, T)
    D = ders(cps, T)
    key = "%s/%s" % (fam, what)
    tag = "%s, %s%s" % (fam, what, "" if given else ", constant points not supplied")
    pi = Vec([Mat(3, 1, list(p)) for p in (wp.consts(spec, data, T) if given else [])])
    if what in ("constant waypoints", "symbolic waypoints"):
        fn = "computeConstantWaypoints" + ("Symbolic" if what[0] == "s" else "")
        z = wp.call(ck, fn, flag, lambda r, e: [r and r.pd, T], key, tag)
        if not z:
            return
        r, v = z
        got = wp.pts_of(r.eng, v)
        if not ck.require(len(got) == spec.npts, key + "/count", r.where(), "%s: %d points instead of %d" % (tag, len(got), spec.npts)):
            return
        k0 = len(spec.ini)
        for i, p in enumerate(got):
            if what[0] == "s":
                com.same_vec(ck, key, r.where(), wp.affine(p, xs, 3), cps[i], "%s: point %d" % (tag, i))
            elif not k0 <= i < k0 + spec.nmid:
                com.same_vec(ck, key, r.where(), p, cps[i], "%s: point %d" % (tag, i))
        return
    order = ("position", "velocity", "acceleration", "jerk").index(what.split()[0])
    if what.endswith("with scalar coefficient"):
        z = wp.call(ck, ("evaluateVelocityCurveAtTime", None, "evaluateJerkCurveAtTime")[order - 1], flag, lambda r, e: [r and r.pd, pi, T, u], key, tag)
        if z:
            com.same_vec(ck, key, z[0].where(), wp.affine(z[1], xs, 3), O.evaluate(D[order], u), tag)
        return
    if what.endswith("waypoints"):
        fn = {1: "computeVelocityWaypoints", 2: "computeAccelerationWaypoints", 3: "computeJerkWaypoints"}[order]
        z = wp.call(ck, fn, flag, lambda r, e: [r and r.pd, T, pi], key, tag)
        if not z:
            return
        r, v = z
        got = [wp.affine(p, xs, 3) for p in wp.pts_of(r.eng, v)]
        want = D[order]
        if len(got) > len(want):
            want = O.elevate(want, len(got) - 1)
        if not ck.require(len(got) == len(want), key + "/count", r.where(), "%s: %d points instead of %d" % (tag, len(got), len(want))):
            return
        for i, (g, w) in enumerate(zip(got, want)):
            com.same_vec(ck, key, r.where(), g, w, "%s: point %d" % (tag, i))
        ck.sample("%s: point 3 = %s" % (tag, P.pstr(want[min(3, len(want) - 1)][0], 160)))
        return
    if what.endswith("cost"):
        return cost(ck, spec, flag, T, pi, D[1], xs, key, tag)
    fn = ("evaluateCurveWaypointAtTime", "evaluateVelocityCurveWaypointAtTime", "evaluateAccelerationCurveWaypointAtTime", "evaluateJerkCurveWaypointAtTime")[order]
    z = wp.call(ck, fn, flag, lambda r, e: [r and r.pd, pi, u] if order == 0 else [r and r.pd, T, pi, u], key, tag)
    if not z:
        return
    r, v = z
    com.same_vec(ck, key, r.where(), wp.affine(v, xs, 3), O.evaluate(D[order], u), tag)


def cost(ck, spec, flag, T, pi, vel, xs, key, tag):
    """integral over the duration of |c'|^2 = x'Hx + 2 g'x + constant, up to one positive factor"""
    z = wp.call(ck, "computeVelocityCost", flag, lambda r, e: [r and r.pd, T, pi], key, tag)
    if not z:
        return
    r, v = z
    H, g = v.f["first"], v.f["second"]
    n = len(xs)
    if not ck.require(isinstance(H, Mat) and H.r == n and H.c == n and g.r == n, key + "/shape", r.where(), "%s: H or g has the wrong size" % tag):
        return
    m = len(vel) - 1
    tot = 0
    for i in range(m + 1):
        for j in range(m + 1):
            w = math.comb(m, i) * math.comb(m, j) / math.comb(2 * m, i + j) / (2 * m + 1)
            tot = P.add(tot, P.mul(P.mul(w, T), O.dot(vel[i], vel[j])))
    grads = []
    for a in range(n):
        s = g.d[a]
        for b in range(n):
            s = P.add(s, P.mul(H.d[a * n + b], xs[b]))
        grads.append(s)
    want = [P.scale(com.diff(tot, x), 0.5) for x in xs]
    ck.ok(len(xs))
    why = com.direction(grads, want, ("T",), 1e-5)
    if why:
        ck.fail(key, r.where(), "%s: the gradient is not a positive multiple of that of the integral of the squared velocity: %s" % (tag, why))


def sampled(ck, item):
    """the discretised costs: sum over equally spaced instants of the squared derivative"""
    fam, order, n = item
    flag = O.EFF[fam]
    spec = O.Spec(flag)
    T = P.sym("T", pos=True)
    xs = spec.var_list()
    cps = spec.points({n2: v3(n2) for n2 in VECS}, T)
    d = ders(cps, T)[order]
    what = ("", "Vel", "Acceleration", "Jerk")[order]
    key = "%s/sampled %s cost" % (fam, ("", "velocity", "acceleration", "jerk")[order])
    tag = "%s, squared %s at %d samples" % (fam, ("", "velocity", "acceleration", "jerk")[order], n)
    r = com.Run(ck, tag)
    out = {}

    def args(eng):
        r.pd = problem(eng, flag, 1)
        out["H"], out["g"] = eng.new(Mat(0, 0, [])), eng.new(Mat(0, 1, []))
        return [n, r.pd, T, out["H"], out["g"]]
    r.go(wp.NS + "compute%sCostFunctionDiscretized" % what, 5, args, extra=(load.HERE + "/tu/inst.cpp",))
    if not ck.require(r.throw is None and not r.eng.throws, key + "/rejected", r.where(), "%s: rejected" % tag):
        return
    if com.bad_events(ck, r.eng, key, tag) or com.bad_state(ck, r.eng, key, tag):
        return
    H, g = r.eng.pick(r.eng.load(out["H"])), r.eng.pick(r.eng.load(out["g"]))
    m = len(xs)
    if not ck.require(isinstance(H, Mat) and isinstance(g, Mat) and (H.r, H.c) == (m, m) and g.r * g.c == m, key + "/shape", r.where(), "%s: H or g has the wrong size" % tag):
        return
    tot = 0
    for i in range(n):
        p = O.evaluate(d, i / (n - 1))
        tot = P.add(tot, O.dot(p, p))
    grads = []
    for a in range(m):
        s = g.d[a]
        for b in range(m):
            s = P.add(s, P.mul(P.mul(0.5, P.add(H.d[a * m + b], H.d[b * m + a])), xs[b]))
        grads.append(s)
    ck.ok(m)
    why = com.direction(grads, [P.scale(com.diff(tot, x), 0.5) for x in xs], ("T",), 1e-7)
    if why:
        ck.fail(key, r.where(), "%s: the gradient is not a positive multiple of that of the sum: %s" % (tag, why))


SPACE = {"one free point": "c0_dc0_ddc0_j0_j1_ddc1_dc1_c1", "three free points": "c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1", "five free points": "c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1"}


def final(ck, fam):
    """the final velocity given by the header of the family"""
    flag = O.EFF[fam]
    T = P.sym("T", pos=True)
    key, tag = fam + "/final velocity", fam + ", final velocity"
    r = com.Run(ck, tag)

    def args(eng):
        r.pd = problem(eng, flag, 1)
        return [r.pd, T]
    r.go(wp.NS + SPACE[fam] + "::computeFinalVelocityPoint", 2, args)
    if not ck.require(r.throw is None and not r.eng.throws, key + "/rejected", r.where(), "%s: rejected" % tag):
        return
    if com.bad_events(ck, r.eng, key, tag) or com.bad_state(ck, r.eng, key, tag):
        return
    v = r.eng.pick(r.res)
    com.same_vec(ck, key, r.where(), wp.affine(v, [P.sym("x%d" % i) for i in range(3)], 3), v3("dc1_").d, tag)


def predef(ck, side):
    """the curves of degree four fixed by one end up to a zero jerk and by the position of the other"""
    T = P.sym("T", pos=True)
    key = "predefined %s" % side
    tag = "curve of degree 4 fixed by its %s" % ("start" if side == "start" else "end")
    far, near = ("c1_", "0_") if side == "start" else ("c0_", "1_")
    flag = O.FULL & ~(INIT_JERK if side == "start" else END_JERK)
    r = com.Run(ck, tag)

    def args(eng):
        r.pd = problem(eng, flag, 1, zero=("j0_", "j1_"))
        return [r.pd, T]
    r.go(wp.NS + "computeConstantWaypoints%sPredef" % ("Init" if side == "start" else "Goal"), 2, args, extra=(load.HERE + "/tu/inst.cpp",))
    if not ck.require(r.throw is None and not r.eng.throws, key + "/rejected", r.where(), "%s: rejected" % tag):
        return
    if com.bad_events(ck, r.eng, key, tag) or com.bad_state(ck, r.eng, key, tag):
        return
    got = wp.pts_of(r.eng, r.eng.pick(r.res))
    if not ck.require(len(got) == 5, key + "/count", r.where(), "%s: %d points instead of 5" % (tag, len(got))):
        return
    cps = [list(p.d) for p in got]
    i = 0 if side == "start" else -1
    for what, want, cp in zip(("position", "velocity", "acceleration", "jerk"), ("c", "dc", "ddc", None), ders(cps, T)):
        com.same_vec(ck, key, r.where(), cp[i], v3(want + near).d if want else [0, 0, 0], "%s: %s there" % (tag, what))
    com.same_vec(ck, key, r.where(), cps[-1 - i], v3(far).d, "%s: position at the other end" % tag)


def run(ck):
    ck.units = len(com.program().tus)
    items = []
    for fam in O.EFF:
        items += [(fam, "constant waypoints", True), (fam, "symbolic waypoints", True)]
        for w in ("position", "velocity", "acceleration", "jerk"):
            items.append((fam, w + " evaluator", True))
        for w in ("velocity waypoints", "acceleration waypoints", "jerk waypoints", "velocity cost"):
            items += [(fam, w, True), (fam, w, False)]
    for w in ("velocity", "jerk"):
        items.append(("one free point", w + " evaluator with scalar coefficient", True))
    ck.map(one, items)
    ck.map(sampled, [(f, o, n) for f in O.EFF for o in (1, 2, 3) for n in (2, 5, 60 if f[:3] == "one" else 8)])
    ck.map(final, list(SPACE))
    ck.map(predef, ["start", "end"])
