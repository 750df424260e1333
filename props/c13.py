import math
import os

import com
import load
import match as M
import oracle as O
import poly as P
import wp
from scen import *

RULE = "rows, cost and result of the end-effector problem = bounds on every velocity, acceleration and jerk control point that depends on the free points, floor on the height of the free points, weighted sum of normalised squared velocity and distance to the path, and the curve through the solution"
EXPLAIN = "the header-only entry point is instantiated for an opaque path and analysed for every family with free points and several weights: rows, cost, curve and terminal derivatives as polynomials of the problem data are compared with the oracle"
FLOOR = 1200
ASSUME = ["the path is sampled at 50 instants for the distance term", "decimal coefficients of the velocity cost are compared with a relative tolerance of 1e-5", "the bounds are those the entry point documents (10000 on every axis)"]

TU = os.path.join(load.HERE, "tu", "inst.cpp")
BOUND = 10000
N = 50


def path_hook(log):
    def h(eng, e, obj, args):
        t = eng.rv(args[-1])
        k = None
        if P.isnum(t):
            k = round(t * (N - 1))
            if abs(t * (N - 1) - k) > 1e-9 or not 0 <= k < N:
                k = None
        log.append((t, k, eng.here()))
        if k is None:
            return Mat(3, 1, [P.sym("path_other%d_%s" % (len(log), a)) for a in "xyz"])
        return Mat(3, 1, [P.sym("path%d_%s" % (k, a)) for a in "xyz"])
    return h


def run_ee(ck, fam, w, success=True, name=None, T=None, **data):
    flag = O.EFF[fam] if isinstance(fam, str) else fam
    T = T or P.sym("T", pos=True)
    r = com.Run(ck, name or "%s, weight of the distance %s" % (fam, w))
    r.log = []

    def args(eng):
        r.pd = problem(eng, flag, 0, **data)
        return [r.pd, Obj("verif_path", {}), T, w, True]
    r.go("bezier_com_traj::solveEndEffector", 5, args, hooks={"verif_path::operator()": path_hook(r.log)}, extra=[TU], success=success)
    r.o = r.eng.load(r.pd).f
    r.spec = O.Spec(flag)
    r.T = T
    r.cps = r.spec.points(r.o, T)
    return r


def quad_integral(pts):
    """weights of the integral over [0,1] of the squared norm of a curve"""
    m = len(pts) - 1
    return [[math.comb(m, i) * math.comb(m, j) / math.comb(2 * m, i + j) / (2 * m + 1) for j in range(m + 1)] for i in range(m + 1)]


def gradients(r, N=N):
    """half gradients of the two objectives, each divided by the Frobenius norm of its quadratic part"""
    xs = r.spec.var_list()
    nf = r.spec.nfree
    k0 = len(r.spec.ini)
    n = r.spec.deg
    # velocity: control points n (p_{i+1}-p_i) / T
    Wq = quad_integral(list(range(n)))
    hv = [[0.0] * (n + 1) for _ in range(n + 1)]
    for i in range(n):
        for j in range(n):
            for a, sa in ((i, -1), (i + 1, 1)):
                for b, sb in ((j, -1), (j + 1, 1)):
                    hv[a][b] += n * n * Wq[i][j] * sa * sb
    hd = [[0.0] * (n + 1) for _ in range(n + 1)]
    gd = [[0.0] * N for _ in range(n + 1)]
    for s in range(N):
        u = s / (N - 1)
        b = [math.comb(n, i) * u ** i * (1 - u) ** (n - i) for i in range(n + 1)]
        for i in range(n + 1):
            gd[i][s] = b[i]
            for j in range(n + 1):
                hd[i][j] += b[i] * b[j]
    fr = range(k0, k0 + nf)
    nv = math.sqrt(3 * sum(hv[i][j] ** 2 for i in fr for j in fr))
    nd = math.sqrt(3 * sum(hd[i][j] ** 2 for i in fr for j in fr))
    smooth, dist = [], []
    for i in fr:
        for a in range(3):
            s = d = 0
            for j in range(n + 1):
                s = P.add(s, P.mul(hv[i][j] / nv, r.cps[j][a]))
                d = P.add(d, P.mul(hd[i][j] / nd, r.cps[j][a]))
            for k in range(N):
                d = P.sub(d, P.mul(gd[i][k] / nd, P.sym("path%d_%s" % (k, "xyz"[a]))))
            smooth.append(s)
            dist.append(d)
    return smooth, dist, xs


def sampled(ck, it):
    """the distance term alone, for a path given by n points"""
    fam, n = it
    flag = O.EFF[fam]
    r = com.Run(ck, "%s, distance to %d points" % (fam, n))
    key = fam + "/distance"
    prog = com.program([TU])
    fs = [g for g in prog.fn("bezier_com_traj::computeDistanceCostFunction", 4) if "Path" not in g.get("u", "") and "vector" in prog.tus[g["tu"]][prog.tus[g["tu"]][g["p"][3]["t"]].get("e", g["p"][3]["t"])].get("s", "")]
    if not fs:
        raise load.Broken("computeDistanceCostFunction on a list of points not found")
    r.eng = engine(prog, {})
    r.fn = fs[0]
    r.mem0 = {}
    r.pd = problem(r.eng, flag, 0)
    r.T = P.sym("T", pos=True)
    path = Vec([Mat(3, 1, [P.sym("path%d_%s" % (k, a)) for a in "xyz"]) for k in range(n)])
    try:
        r.res = r.eng.rv(r.eng.call(fs[0], [n, r.pd, r.T, r.eng.new(path)]))
    except AbsThrow as e:
        r.throw = e
    ck.scenario(r.name)
    ck.absorb(r.eng)
    if not r.usable(key, single=False):
        return
    r.o = r.eng.load(r.pd).f
    r.spec = O.Spec(flag)
    r.cps = r.spec.points(r.o, r.T)
    v = r.eng.pick(r.res)
    H, g = v.f["first"], v.f["second"]
    _, want, xs = gradients(r, n)
    m = len(xs)
    if not ck.require(H.r == m and H.c == m and g.r == m, key + "/shape", r.where(), "%s: H %dx%d, g %d" % (r.name, H.r, H.c, g.r)):
        return
    got = []
    for i in range(m):
        s = g.d[i]
        for j in range(m):
            s = P.add(s, P.mul(P.mul(0.5, P.add(H.d[i * m + j], H.d[j * m + i])), xs[j]))
        got.append(s)
    ck.ok(m)
    why = com.direction(got, want, ("T",), 2e-5)
    if why:
        ck.fail(key, r.where(), "%s: %s" % (r.name, why))


def one(ck, it):
    if it[0] == "points":
        return sampled(ck, it[1:])
    fam, w = it[:2]
    wv = P.sym("wd", pos=True) if w == "sym" else w
    r = run_ee(ck, fam, wv) if len(it) == 2 else run_ee(ck, fam, wv, name="%s, weight of the distance %s, duration %s" % (fam, w, it[2]), T=it[2])
    key = fam
    if not r.usable(key):
        return
    w0 = r.where()
    a = r.cap.calls[0]["args"]
    A, b, D, d, H, g = a[:6]
    xs = r.spec.var_list()
    n = len(xs)
    if not ck.require(A.c == n and A.r == b.r and H.r == n and H.c == n and g.r == n, key + "/shape", w0, "%s: A %dx%d, b %d, H %dx%d, g %d" % (r.name, A.r, A.c, b.r, H.r, H.c, g.r)):
        return
    ck.require(D.r == 0 and d.r == 0 and a[7].r == 0 and a[8].r == 0, key + "/other constraints", w0, "%s: %d equality rows and %d/%d variable bounds, none is required" % (r.name, D.r, a[7].r, a[8].r))
    if w == 0.3:
        exp = []
        c = r.cps
        sx = {next(iter(x.t))[0][0] for x in xs}
        for k, nm in ((1, "velocity"), (2, "acceleration"), (3, "jerk")):
            c = O.derive(c, r.T)
            for i, p in enumerate(c):
                for ax in range(3):
                    dep = any(s in sx for s in P.syms_of(p[ax])) if isinstance(p[ax], P.Poly) else False
                    for sg, sd in ((1, "upper"), (-1, "lower")):
                        q = p[ax] if sg == 1 else P.neg(p[ax])
                        exp.append(O.Row(P.sub(q, BOUND), "%s %s bound, control point %d, axis %s" % (nm, sd, i, "xyz"[ax]), req=dep))
        lo = P.minv(r.o["c0_"].d[2], r.o["c1_"].d[2])
        for j in range(r.spec.nfree):
            exp.append(O.Row(P.sub(lo, xs[3 * j + 2]), "height of free point %d" % j))
        act, locs = com.rows_of(A, b, xs)
        com.compare_rows(ck, r, key, act, locs, exp)
    got = []
    for i in range(n):
        s = g.d[i]
        for j in range(n):
            s = P.add(s, P.mul(P.mul(0.5, P.add(H.d[i * n + j], H.d[j * n + i])), xs[j]))
        got.append(s)
    sm, di, _ = gradients(r)
    want = [P.add(P.mul(P.sub(1, wv), x), P.mul(wv, y)) for x, y in zip(sm, di)]
    ck.ok(n)
    why = com.direction(got, want, ("T",), 2e-5)
    if why:
        ck.fail(key + "/cost", w0, "%s: %s" % (r.name, why))
    f = r.eng.pick(r.res).f
    if not com.settled(ck, key, w0, f, r.name):
        return
    sol = [P.sym("x%d" % i) for i in range(n)]
    pts = com.with_solution(r.cps, r.spec, sol)
    import importlib
    c01 = importlib.import_module("c01")
    c01.same_curve(ck, key + "/curve", w0, f["c_of_t_"], pts, r.T, "%s: returned curve" % r.name)
    d1 = O.derive(pts, r.T)
    com.same_vec(ck, key + "/final velocity", w0, f["dc1_"], d1[-1], "%s: final velocity of the result" % r.name)
    com.same_vec(ck, key + "/final acceleration", w0, f["ddc1_"], O.derive(d1, r.T)[-1], "%s: final acceleration of the result" % r.name)
    com.same_vec(ck, key + "/x", w0, f["x"], sol, "%s: x of the result" % r.name)
    com.same(ck, key + "/result cost", w0, f["cost_"], P.sym("qpcost"), "%s: cost of the result" % r.name)


def run(ck):
    prog = com.program([TU])
    ck.units = len(prog.tus)
    ws = [0.3, 0, 1.0, "sym"]
    if ck.thorough:
        ws += [0.01, 0.5, 0.999]
    items = [(f, w) for f in O.EFF for w in ws]
    # numbers for the duration, and other numbers of points
    items += [(f, 0.3, t) for f in O.EFF for t in (2.0 ** -7, 1.0, 8.0)]
    items += [("points", f, n) for f in O.EFF for n in (3, 4, 7, 24, 130, 260)]
    ck.map(one, items)
