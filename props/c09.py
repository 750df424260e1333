import math

import com
import match as M
import oracle as O
import poly as P
from scen import *

RULE = "rows, cost and result of the zero-step problem = those of the cubic curve from the initial state to rest at the free point x, with, on request, the cubic angular momentum from l0 to zero through a second free point"
EXPLAIN = "with and without angular momentum, continuous and time-stepped, for several sizes of the cone, kinematic and angular constraints: the value-flow polynomials reaching the solver and the returned object are compared with the oracle"
FLOOR = 900
ASSUME = ["the cost is meaningful up to one positive factor; the distance term next to the angular momentum integral is a regularisation (weight at most 1e-2)"]


def lcurve(l0, xl):
    return [l0, xl, [0, 0, 0], [0, 0, 0]]


def one(ck, cfg):
    ang, ratio, nrows, nkin, nang = cfg
    name = "zero step, %s angular momentum, %s, %d cone rows, %d kinematic rows, %d angular rows" % (
        "with" if ang else "without", "continuous" if ratio is None else "%s steps" % ratio, nrows, nkin, nang)
    r = com.Run(ck, name)
    dt = P.sym("dt", pos=True)
    T = P.sym("T", pos=True) if ratio is None else P.mul(dt, ratio)

    def args(eng):
        r.pd = problem(eng, O.COM["c0_dc0_dc1"], 1, nrows=nrows, nkin=nkin, nang=nang, angular=ang)
        return [r.pd, Vec([T]), -1.0 if ratio is None else dt]
    r.go("bezier_com_traj::solve0step", 3, args)
    key = "%s/%s" % ("angular" if ang else "plain", "continuous" if ratio is None else "discrete")
    if not r.usable(key):
        return
    w0 = r.where()
    o = r.eng.load(r.pd).f
    spec = O.Spec(O.COM["c0_dc0_dc1"])
    xs = [P.sym("X%d" % i) for i in range(6 if ang else 3)]
    cps = spec.points(o, T)
    g = gravity().d
    co = o["contacts_"].v[0].f
    eq = r.eng.load(co["contactPhase_"].ref).f
    a = r.cap.calls[0]["args"]
    A, b, D, d, H, gg = a[:6]
    n = len(xs)
    if not ck.require(A.c == n and A.r == b.r and H.r == n and H.c == n and gg.r == n, key + "/shape", w0, "%s: A %dx%d, b %d, H %dx%d, g %d" % (name, A.r, A.c, b.r, H.r, H.c, gg.r)):
        return
    ck.require(D.r == 0 and d.r == 0, key + "/equalities", w0, "%s: %d equality rows, none is required" % (name, D.r))
    for v in (a[7], a[8]):
        ck.require(v.r == 0, key + "/bounds", w0, "%s: %d variable bounds, none is required" % (name, v.r))
    # dynamics
    l0 = o["l0_"].d
    dl = O.derive(lcurve(l0, xs[3:6]), T) if ang else None
    W = O.wrench(cps, T, g)
    if dl:
        dl4 = O.elevate(dl, 4)
        W = [w[:3] + [P.add(x, P.div(y, eq["m_mass"])) for x, y in zip(w[3:], q)] for w, q in zip(W, dl4)]
    ns = int(ratio) if ratio is not None else 0
    pts = [("wrench control point %d" % k, w) for k, w in enumerate(W)]
    if ns > 0:
        pts = [("sample %d/%d" % (k, ns), O.evaluate(W, k / ns)) for k in range(ns + 1)]
    exp = []
    for nm, w in pts:
        exp += O.stability_rows(eq["H"], w, g, None, nm)
    exp += O.kin_rows(co["Kin_"], co["kin_"], xs[:3], "final position")
    if ang:
        for i in range(nang):
            exp.append(O.Row(P.sub(O.dot([co["Ang_"].g(i, j) for j in range(3)], xs[3:6]), co["ang_"].d[i]), "angular momentum row %d" % i))
    act, locs = com.rows_of(A, b, xs)
    com.compare_rows(ck, r, key, act, locs, exp)
    # cost
    grad = []
    for i in range(n):
        s = gg.d[i]
        for j in range(n):
            s = P.add(s, P.mul(P.mul(0.5, P.add(H.d[i * n + j], H.d[j * n + i])), xs[j]))
        grad.append(s)
    dist = [P.sub(xs[i], o["c0_"].d[i]) for i in range(3)]
    ck.ok(2)
    why = com.direction(grad[:3], dist)
    if why:
        ck.fail(key + "/distance cost", w0, "%s: the cost is not the distance to the initial position: %s" % (name, why))
    if ang:
        tot = integral(dl, T)
        half = [P.scale(com.diff(tot, x), 0.5) for x in xs[3:6]]
        why = com.direction(grad[3:], half, ("T", "dt"))
        if why:
            ck.fail(key + "/angular cost", w0, "%s: the cost is not the integral of the squared angular momentum derivative: %s" % (name, why))
        wd, wa = H.d[0], H.d[3 * n + 3]
        ck.require(P.isnum(wd) and P.isnum(wa) and 0 < wd <= 1e-2 * wa, key + "/weights", w0, "%s: weight %s of the distance against %s" % (name, P.pstr(wd, 40), P.pstr(wa, 40)))
    # result
    f = r.eng.pick(r.res).f
    import c01
    if not com.settled(ck, key, w0, f, name):
        return
    sol = [P.sym("x%d" % i) for i in range(n)]
    c = com.with_solution(cps, spec, sol)
    c01.same_curve(ck, key + "/curve", w0, f["c_of_t_"], c, T, name + ": returned curve")
    if ang:
        c01.same_curve(ck, key + "/angular curve", w0, f["dL_of_t_"], O.derive(lcurve(l0, sol[3:]), T), T, name + ": angular momentum derivative curve")
    else:
        c01.same_curve(ck, key + "/angular curve", w0, f["dL_of_t_"], [[0, 0, 0]], T, name + ": angular momentum derivative curve")
    com.same_vec(ck, key + "/x", w0, f["x"], sol, name + ": x")
    d1 = O.derive(c, T)
    com.same_vec(ck, key + "/final velocity", w0, f["dc1_"], d1[-1], name + ": final velocity")
    com.same_vec(ck, key + "/final acceleration", w0, f["ddc1_"], O.derive(d1, T)[-1], name + ": final acceleration")
    ck.ok()
    if ang:
        want = integral(O.derive(lcurve(l0, sol[3:]), T), T)
        why = com.direction([f["cost_"]], [want], ("T", "dt"))
    else:
        dd = [P.sub(sol[i], o["c0_"].d[i]) for i in range(3)]
        sq = O.dot(dd, dd)
        why = com.direction([P.mul(f["cost_"], f["cost_"])], [sq])
    if why:
        ck.fail(key + "/cost", w0, "%s: reported cost: %s" % (name, why))


def integral(pts, T):
    m = len(pts) - 1
    tot = 0
    for i in range(m + 1):
        for j in range(m + 1):
            w = math.comb(m, i) * math.comb(m, j) / math.comb(2 * m, i + j) / (2 * m + 1)
            tot = P.add(tot, P.mul(P.mul(w, T), O.dot(pts[i], pts[j])))
    return tot


def run(ck):
    ck.units = len(com.program().tus)
    out = []
    for ang in (False, True):
        for ratio in (None, 0.5, 1.5, 4.25) + ((2.0, 7.75, 10.5, 20.25) if ck.thorough else ()):
            for nrows, nkin, nang in ((2, 1, 1), (3, 0, 2), (1, 2, 0)) + (((4, 3, 3), (2, 0, 0)) if ck.thorough else ()):
                out.append((ang, ratio, nrows, nkin, nang))
        out += [(ang, None, 150, 80, 70), (ang, 1.5, 2, 130, 140), (ang, 40.25, 1, 1, 1), (ang, 130.25, 1, 1, 1), (ang, 2.004, 1, 1, 1)]
    ck.map(one, out)
