import c13
import com
import oracle as O
import poly as P
from scen import *

RULE = "when the solver reports failure, the result of every entry point is marked unsuccessful and carries no trajectory and no solution-dependent derivative; when it reports success, the result is marked successful"
EXPLAIN = "every entry point is analysed, for every family, sampling mode and representation, with a solver that fails and with one that succeeds; the success flag and the trajectory fields of the returned object are read from the value flow"
FLOOR = 300


def fields(ck, r, key, success):
    if not r.usable(key):
        return
    w = r.where()
    v = r.eng.pick(r.res)
    if not isinstance(v, Obj):
        raise Abort("result of unknown shape %r" % (v,))
    f = v.f
    s = f["success_"]
    if not isinstance(s, (bool, int)):
        raise Abort("undecided success flag %r" % (s,))
    ck.require(bool(s) == success, key + "/flag", w, "%s: the result is marked %s although the solver %s" % (r.name, "successful" if s else "unsuccessful", "succeeded" if success else "failed"))
    if success:
        return
    for n in ("c_of_t_", "dL_of_t_"):
        c = f[n]
        if not isinstance(c, Obj):
            raise Abort("%s is not a curve value (%r)" % (n, c))
        for p in c.f["wps"].v:
            p = r.eng.pick(p)
            for x in p.d:
                ck.require(P.isnum(x) and abs(x) < 1e-12, key + "/" + n, w, "%s: a failed result carries a trajectory: control point entry %s in %s" % (r.name, P.pstr(x, 80), n))
    for n in ("dc1_", "ddc1_"):
        for x in f[n].d:
            ck.require(P.isnum(x) and abs(x) < 1e-12, key + "/" + n, w, "%s: a failed result carries %s = %s" % (r.name, n, P.pstr(x, 80)))


def one(ck, it):
    kind, a, success = it
    sn = "solver succeeds" if success else "solver fails"
    if kind == "com":
        r = com.run_com(ck, a, success=success)
        r.name += ", " + sn
        fields(ck, r, "%s/%s" % (a.fam, a.mode[0]), success)
    elif kind == "zero":
        ang, ratio = a
        r = com.Run(ck, "zero step, %s angular momentum, %s, %s" % ("with" if ang else "without", "continuous" if ratio is None else "%s steps" % ratio, sn))
        dt = P.sym("dt", pos=True)
        T = P.sym("T", pos=True) if ratio is None else P.mul(dt, ratio)
        r.go("bezier_com_traj::solve0step", 3, lambda e: [problem(e, O.COM["c0_dc0_dc1"], 1, angular=ang), Vec([T]), -1.0 if ratio is None else dt], success=success)
        fields(ck, r, "zero step", success)
    else:
        fam, w = a
        r = c13.run_ee(ck, fam, w, success=success)
        r.name += ", " + sn
        fields(ck, r, "end effector/" + fam, success)


def run(ck):
    ck.units = len(com.program([c13.TU]).tus)
    out = []
    for ok in (False, True):
        for fam in O.COM:
            ms = [("fixed", 1, 2), ("step", (2.5, 3.5)), ("cont", 1)]
            if ck.thorough:
                ms += [("fixed", 3, 3), ("step", (2.5,)), ("cont", 2)]
            for m in ms:
                out.append(("com", com.Cfg(fam, m), ok))
            out.append(("com", com.Cfg(fam, ("cont", 2), rep="FORCE"), ok))
            ms = [(("fixed", 4 if O.Spec(O.COM[fam]).deg < 4 else 2, 2), {"nrows": 1}), (("fixed", 2, 7), {"nrows": 1, "nkin": 0}), (("step", (1.5, 2.25, 0.5)), {"solver": 2}), (("step", (1.5, 0.5, 2.0, 1.25, 1.75)), {"nrows": 1}), (("cont", 1), {"solver": 2, "cost": "DISTANCE_TRAVELED"}), (("cont", 1), {"acc": True, "nkin": 0})]
            if O.Spec(O.COM[fam]).deg < 6:
                ms += [(("cont", 3), {"nrows": 1}), (("cont", 2), {"rep": "FORCE", "solver": 2})]
            if not O.COM[fam] & END_VEL:
                ms += [(("step", (2.5, 1.25)), {"cost": "TARGET_END_VELOCITY"}), (("cont", 1), {"cost": "TARGET_END_VELOCITY", "rep": "FORCE"})]
            for m, k in ms:
                out.append(("com", com.Cfg(fam, m, **k), ok))
        for ang in (False, True):
            for ratio in (None, 2.5):
                out.append(("zero", (ang, ratio), ok))
        for fam in O.EFF:
            out.append(("ee", (fam, 0.5), ok))
    ck.map(one, out)
