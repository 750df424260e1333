import com
import oracle as O
import poly as P
import wp
from scen import *

RULE = "value-flow polynomial of each symbolic description (points, position, acceleration, final velocity) = the same quantity of the curve defined by the boundary conditions, for every time, duration and free point"
EXPLAIN = "every family x description is analysed once with symbolic data, duration and instant; the resulting polynomials are compared with Bezier algebra applied to the boundary conditions"
FLOOR = 300


def flags(fam):
    return O.COM[fam]


def one(ck, item):
    fam, what = item
    flag = O.COM[fam]
    spec = O.Spec(flag)
    T = P.sym("T", pos=True)
    u = P.sym("u")
    xs = spec.var_list()
    key = "%s/%s" % (fam, what)
    tag = "%s, %s" % (fam, what)
    zero = ("dc1_",) if spec.stop else ()
    data = {n: (fill(3, 1, 0) if n in zero else v3(n)) for n in VECS}
    cps = spec.points(data, T)
    if what == "constant waypoints":
        z = wp.call(ck, "computeConstantWaypoints", flag, lambda r, e: [r and r.pd, T], key, tag)
        if not z:
            return
        r, v = z
        got = wp.pts_of(r.eng, v)
        if not ck.require(len(got) == spec.npts, key + "/count", r.where(), "%s: %d points instead of %d" % (tag, len(got), spec.npts)):
            return
        k0 = len(spec.ini)
        for i, p in enumerate(got):
            if k0 <= i < k0 + spec.nmid:
                continue
            com.same_vec(ck, key, r.where(), p, cps[i], "%s: point %d" % (tag, i))
        return
    if what == "symbolic waypoints":
        z = wp.call(ck, "computeConstantWaypointsSymbolic", flag, lambda r, e: [r and r.pd, T], key, tag)
        if not z:
            return
        r, v = z
        got = wp.pts_of(r.eng, v)
        if not ck.require(len(got) == spec.npts, key + "/count", r.where(), "%s: %d points instead of %d" % (tag, len(got), spec.npts)):
            return
        for i, p in enumerate(got):
            com.same_vec(ck, key, r.where(), wp.affine(p, xs, 3), cps[i], "%s: point %d" % (tag, i))
        return
    if what == "final velocity":
        z = wp.call(ck, "computeFinalVelocityPoint", flag, lambda r, e: [r and r.pd, T], key, tag)
        if not z:
            return
        r, v = z
        com.same_vec(ck, key, r.where(), wp.affine(v, xs, 3), O.derive(cps, T)[-1], tag)
        return
    pi = Vec([Mat(3, 1, list(p)) for p in wp.consts(spec, data, T)])
    if what == "position":
        z = wp.call(ck, "evaluateCurveAtTime", flag, lambda r, e: [r and r.pd, pi, u], key, tag)
        want = O.evaluate(cps, u)
    else:
        z = wp.call(ck, "evaluateAccelerationCurveAtTime", flag, lambda r, e: [r and r.pd, pi, T, u], key, tag)
        want = O.evaluate(O.derive(O.derive(cps, T), T), u)
    if not z:
        return
    r, v = z
    com.same_vec(ck, key, r.where(), wp.affine(v, xs, 3), want, tag)
    ck.sample("%s = %s" % (tag, P.pstr(want[0], 160)))


def run(ck):
    ck.units = len(com.program().tus)
    items = []
    for fam in O.COM:
        for what in ("constant waypoints", "symbolic waypoints", "position", "acceleration", "final velocity"):
            if what == "final velocity" and O.COM[fam] == O.FULL:
                continue
            items.append((fam, what))
    # the families of the end effector share the description of the points
    ck.map(one, items)
