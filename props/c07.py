import com
import oracle as O
import poly as P
from scen import *

RULE = "gradient of the quadratic cost handed to the solver = a positive multiple of that of the selected objective; force variables only carry a non negative diagonal term; unsupported objectives throw"
EXPLAIN = "every family x objective x sampling mode is an analysed configuration; the H,g value-flow polynomials reaching the solver are compared with the objective written from the curve"
FLOOR = 600
ASSUME = ["the objective is only meaningful up to one positive factor", "a sample shared by two phases may count once or twice in the acceleration cost"]


def expected(r, cost, dedup):
    xs = r.spec.var_list()
    a = (cost if isinstance(cost, str) else "?")
    out = [0, 0, 0]
    if a == "ACCELERATION":
        dd = O.derive(O.derive(r.cps, r.T), r.T)
        seen = set()
        for t, _ in r.samples:
            if dedup and P.key(P.num(t)) in seen:
                continue
            seen.add(P.key(P.num(t)))
            v = O.evaluate(dd, P.div(t, r.T))
            for i in range(3):
                k = coeff(v[i], xs[i])
                out[i] = P.add(out[i], P.mul(k, v[i]))
        return out
    if a == "DISTANCE_TRAVELED":
        return [P.sub(xs[i], P.mul(0.5, P.add(r.o["c0_"].d[i], r.o["c1_"].d[i]))) for i in range(3)]
    v = O.derive(r.cps, r.T)[-1]
    return [P.mul(coeff(v[i], xs[i]), P.sub(v[i], r.o["dc1_"].d[i])) for i in range(3)]


def coeff(p, x):
    (m, _), = x.t.items()
    s = m[0][0]
    if P.isnum(p):
        return 0
    out = {}
    for mo, c in p.t.items():
        if (s, 1) in mo:
            out[tuple(z for z in mo if z[0] != s)] = c
    return P.mk(out) if out else 0


def one(ck, item):
    cfg, throws = item
    cost = cfg.kw.get("cost", "ACCELERATION")
    r = com.run_com(ck, cfg)
    key = "%s/%s/%s" % (cfg.fam, cost, cfg.mode[0])
    if throws:
        ok = r.throw is not None
        ck.require(ok, key + "/accepted", r.where(), "%s: this objective cannot be used with these constraints, but a problem is handed to the solver (%d calls)" % (r.name, len(r.cap.calls)))
        ck.require(not r.cap.calls, key + "/accepted", r.where(), "%s: the solver is called before the rejection" % r.name)
        return
    if not r.usable(key):
        return
    a = r.cap.calls[0]["args"]
    H, g = a[4], a[5]
    n = a[0].c
    w = r.where()
    if not ck.require(H.r == n and H.c == n and g.r == n, key + "/shape", w, "%s: H is %dx%d and g has %d entries for %d variables" % (r.name, H.r, H.c, g.r, n)):
        return
    xs = r.spec.var_list()
    got = []
    for i in range(3):
        s = g.d[i]
        for j in range(3):
            # the cost is x'Hx + 2g'x: only the symmetric part counts
            s = P.add(s, P.mul(P.mul(0.5, P.add(H.d[i * n + j], H.d[j * n + i])), xs[j]))
        got.append(s)
    ok = None
    for dd in (False, True):
        ok = com.direction(got, expected(r, cost, dd), ("T", "dt"))
        if ok is None:
            break
    ck.ok(12)
    if ok is not None:
        ck.fail(key, w, "%s: %s" % (r.name, ok))
    for i in range(n):
        for j in range(n):
            if i < 3 and j < 3:
                continue
            v = H.d[i * n + j]
            if i != j:
                ck.require(P.isnum(v) and abs(v) < 1e-12, key + "/force coupling", w, "%s: H(%d,%d) couples a contact force: %s" % (r.name, i, j, P.pstr(v, 60)))
            else:
                ck.require(P.sign(v) == 1 if not P.isnum(v) else v > 0, key + "/force weight", w, "%s: H(%d,%d) = %s is not positive" % (r.name, i, i, P.pstr(v, 60)))
                ck.require(P.isnum(v) and v < 1e-2, key + "/force weight", w, "%s: H(%d,%d) = %s is not a regularisation" % (r.name, i, i, P.pstr(v, 60)))
    for i in range(3, n):
        ck.require(P.isnum(g.d[i]) and g.d[i] == 0, key + "/force gradient", w, "%s: g(%d) = %s is not zero" % (r.name, i, P.pstr(g.d[i], 60)))
    ck.sample("%s: half gradient along x = %s" % (r.name, P.pstr(got[0], 160)))


def configs(ck):
    out = []
    for fam in O.COM:
        stop = O.COM[fam] & INIT_POS and O.COM[fam] & END_VEL
        modes = [("fixed", 2, 2), ("step", (2.5, 3.25)), ("cont", 1)]
        if ck.thorough:
            modes += [("fixed", 3, 5), ("step", (3.25, 2.5, 2.25)), ("cont", 2), ("fixed", 1, 1)]
        for m in (("fixed", 4 if O.Spec(O.COM[fam]).deg < 4 else 3, 1), ("step", (1.5, 2.25, 0.5))) + ((("cont", 3),) if O.Spec(O.COM[fam]).deg < 6 else ()):
            for cost in ("ACCELERATION", "DISTANCE_TRAVELED") + (() if O.COM[fam] & END_VEL else ("TARGET_END_VELOCITY",)):
                out.append((com.Cfg(fam, m, cost=cost, nrows=1, nkin=0, solver=2 if m[0] != "fixed" else 1), False))
        for m in modes:
            for cost in ("ACCELERATION", "DISTANCE_TRAVELED", "TARGET_END_VELOCITY", "UNKNOWN_COST", 0, 3, 6):
                bad = cost in ("UNKNOWN_COST", 0, 3, 6) or (cost == "TARGET_END_VELOCITY" and O.COM[fam] & END_VEL)
                if cost in (0, 3, 6) and m[0] != "fixed":
                    continue
                out.append((com.Cfg(fam, m, cost=cost), bad))
        for cost in ("ACCELERATION", "DISTANCE_TRAVELED"):
            out.append((com.Cfg(fam, ("cont", 1), cost=cost, rep="FORCE"), False))
            out.append((com.Cfg(fam, ("cont", 2), cost=cost, rep="FORCE", ncols=[4, 8]), False))
            # numbers for the durations: more phases, very short and very long ones
            out.append((com.Cfg(fam, ("fixed", 7, 2), cost=cost, nrows=1, nkin=0, dur=[0.5, 0.25, 1, 0.75, 0.125, 0.875, 0.5]), False))
            out.append((com.Cfg(fam, ("cont", 5), cost=cost, nrows=1, nkin=0, dur=[0.5, 0.25, 1, 1.25, 1]), False))
            out.append((com.Cfg(fam, ("step", (3, 5, 7, 1)), cost=cost, nrows=1, nkin=0, dt=0.25), False))
            out.append((com.Cfg(fam, ("fixed", 2, 2), cost=cost, nrows=1, nkin=0, dur=[2.0 ** -10, 3 * 2.0 ** -10]), False))
            out.append((com.Cfg(fam, ("fixed", 2, 2), cost=cost, nrows=1, nkin=0, dur=[3 * 2.0 ** 8, 2.0 ** 8]), False))
            if fam == "c0_dc0_c1":
                out.append((com.Cfg(fam, ("fixed", 1, 600), cost=cost, nrows=1, nkin=0, dur=[1.0]), False))
                out.append((com.Cfg(fam, ("fixed", 16, 1), cost=cost, nrows=1, nkin=0, dur=[0.25] * 16), False))
                out.append((com.Cfg(fam, ("cont", 1), cost=cost, rep="FORCE", ncols=[20], nkin=1), False))
                out.append((com.Cfg(fam, ("fixed", 1, 70), cost=cost, nrows=1, nkin=0), False))
                out.append((com.Cfg(fam, ("step", (40.5, 30.75)), cost=cost, nrows=1, nkin=1), False))
    return out


def run(ck):
    ck.units = len(com.program().tus)
    ck.map(one, configs(ck))
