import com
import oracle as O
import poly as P
from scen import *

RULE = "curve, final velocity, final acceleration and angular momentum curve of a successful result, as polynomials of the problem data and of the solver's solution = the curve defined by the selected boundary conditions"
EXPLAIN = "every family x entry point x representation x number of phases is an analysed configuration; the value-flow polynomials of the returned object (curve control points, duration, scaling, final derivatives) are compared with the curve obtained from the boundary conditions alone"
FLOOR = 1500
ASSUME = ["derivatives given by the external curve library are those of its control points"]


def curve_mono(c):
    """coefficients of u^k of the values of an abstract bezier object"""
    pts = [w.d if isinstance(w, Mat) else w for w in c["wps"].v]
    m = c["mult_T_"]
    return com.to_mono([[P.mul(m, x) for x in p] for p in pts])


def same_curve(ck, key, where, c, want, T, what):
    """c: abstract bezier_curve; want: control points; T: duration"""
    if not isinstance(c, Obj):
        raise Abort("%s is not a curve value (%r)" % (what, c))
    f = c.f
    ck.require(P.equal(P.num(f["T_min_"]), 0), key, where, "%s starts at %s instead of 0" % (what, P.pstr(f["T_min_"], 60)))
    com.same(ck, key, where, f["T_max_"], T, "%s: duration" % what)
    got = curve_mono(f)
    exp = com.to_mono(want)
    for k in range(max(len(got), len(exp))):
        g = got[k] if k < len(got) else [0] * len(exp[0])
        e = exp[k] if k < len(exp) else [0] * len(got[0])
        com.same_vec(ck, key, where, g, e, "%s: coefficient of (t/T)^%d" % (what, k))


def one(ck, cfg):
    r = com.run_com(ck, cfg)
    key = "%s/%s" % (cfg.fam, cfg.mode[0])
    if not r.usable(key):
        return
    w = r.where()
    res = r.eng.pick(r.res)
    f = res.f
    if not com.settled(ck, key, w, f, r.name):
        return
    xs = [P.sym("x%d" % i) for i in range(3)]
    pts = com.with_solution(r.cps, r.spec, xs)
    same_curve(ck, key + "/curve", w, f["c_of_t_"], pts, r.T, "%s: returned curve" % r.name)
    d1 = O.derive(pts, r.T)
    d2 = O.derive(d1, r.T)
    com.same_vec(ck, key + "/final velocity", w, f["dc1_"], d1[-1], "%s: final velocity of the result" % r.name)
    com.same_vec(ck, key + "/final acceleration", w, f["ddc1_"], d2[-1], "%s: final acceleration of the result" % r.name)
    same_curve(ck, key + "/angular momentum", w, f["dL_of_t_"], [[0, 0, 0]], r.T, "%s: angular momentum derivative curve" % r.name)
    com.same_vec(ck, key + "/x", w, f["x"], xs, "%s: x of the result" % r.name)
    com.same(ck, key + "/cost", w, f["cost_"], P.sym("qpcost"), "%s: cost of the result" % r.name)
    # independent check of the oracle itself: boundary values read from the points
    T = r.T
    cur = pts
    for k in range(4):
        for side, names in ((0, r.spec.ini), (-1, r.spec.end)):
            if k < len(names):
                com.same_vec(ck, key + "/boundary", w, cur[side], r.o[names[k]].d, "%s: derivative %d at the %s" % (r.name, k, "start" if side == 0 else "end"))
        if r.spec.stop and k == 1:
            com.same_vec(ck, key + "/boundary", w, cur[-1], [0, 0, 0], "%s: final velocity" % r.name)
        cur = O.derive(cur, T)
    ck.sample("%s: c(t/T) has %d control points, free: %s" % (r.name, len(pts), "index %d" % len(r.spec.ini)))


def configs(ck):
    out = []
    for fam in O.COM:
        out.append(com.Cfg(fam, ("fixed", 1, 2)))
        out.append(com.Cfg(fam, ("step", (2.5, 3.5))))
        out.append(com.Cfg(fam, ("cont", 1)))
        out.append(com.Cfg(fam, ("cont", 2), rep="FORCE"))
        # numbers for the durations: more phases, very short and very long ones
        out.append(com.Cfg(fam, ("cont", 6), nrows=1, nkin=0, dur=[0.5, 0.25, 1, 0.75, 0.5, 1]))
        out.append(com.Cfg(fam, ("fixed", 9, 2), nrows=1, nkin=0, dur=[0.5, 0.25, 1, 0.75, 0.5, 1, 2, 1, 1]))
        out.append(com.Cfg(fam, ("fixed", 2, 2), nrows=1, nkin=0, dur=[3 * 2.0 ** 8, 2.0 ** 8]))
        out.append(com.Cfg(fam, ("step", (3, 5)), nrows=1, nkin=0, dt=2.0 ** -10))
        out.append(com.Cfg(fam, ("fixed", 2, 2), cost="DISTANCE_TRAVELED", acc=True))
        out.append(com.Cfg(fam, ("fixed", 4, 1), nrows=1, nkin=0) if O.Spec(O.COM[fam]).deg < 6 else com.Cfg(fam, ("fixed", 3, 1), nrows=1, nkin=0))
        out.append(com.Cfg(fam, ("fixed", 6, 1), nrows=1, nkin=0) if O.Spec(O.COM[fam]).deg < 4 else com.Cfg(fam, ("fixed", 3, 3), nrows=1, nkin=0))
        out.append(com.Cfg(fam, ("step", (2.5, 1.5, 2.25)), solver=2))
        out.append(com.Cfg(fam, ("step", (1.5, 0.5, 2.0, 1.25, 1.75)), nrows=1, shared=True))
        out.append(com.Cfg(fam, ("cont", 1), solver=2, cost="DISTANCE_TRAVELED"))
        if ck.thorough or O.Spec(O.COM[fam]).deg < 6:
            out.append(com.Cfg(fam, ("cont", 3)))
            out.append(com.Cfg(fam, ("cont", 3), rep="FORCE", solver=2))
        if ck.thorough:
            out.append(com.Cfg(fam, ("cont", 4)))
            out.append(com.Cfg(fam, ("fixed", 3, 5), acc=True))
            out.append(com.Cfg(fam, ("step", (2.5, 3.5, 4.25))))
    return out


def run(ck):
    ck.units = len(com.program().tus)
    ck.map(one, configs(ck))
