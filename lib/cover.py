"""The analysed configurations shared by the checks that quantify over every entry point."""
import c13
import com
import oracle as O
import poly as P
from scen import *


def scenarios(thorough):
    """work items (kind, parameters), one analysed configuration each"""
    out = []
    C = com.Cfg
    for fam in O.COM:
        out += [("com", C(fam, ("fixed", 1, 3), default_kin=True)),
                ("com", C(fam, ("fixed", 3, 2), acc=True, nrows=[1, 3, 2], nkin=[2, 0, 1])),
                ("com", C(fam, ("fixed", 2, 1), acc=True, nrows=[4, 1], nkin=[0, 5])),
                ("com", C(fam, ("step", (2.5, 3.25)), acc=True, nrows=[3, 1], nkin=[0, 4])),
                ("com", C(fam, ("step", (2.0, 1.0, 0.5)), nrows=[3, 1, 2], default_kin=True)),
                ("com", C(fam, ("cont", 1), acc=True, nkin=0)),
                ("com", C(fam, ("cont", 2), acc=True, nrows=[3, 1], nkin=[0, 2])),
                ("com", C(fam, ("cont", 1), acc=True, rep="FORCE", nkin=0, ncols=[3])),
                ("com", C(fam, ("cont", 2), rep="FORCE", nkin=[2, 1], ncols=[3, 5])),
                ("com", C(fam, ("cont", 2), acc=True, rep="FORCE", default_kin=True, ncols=[6, 2]))]
        out += [("com", C(fam, ("step", (1.5, 0.5, 2.0, 1.25, 1.75)), acc=True, nrows=[1, 2, 1, 3, 1], nkin=[0, 1, 2, 1, 0], solver=2)),
                ("com", C(fam, ("step", (1.25, 2.25)), nrows=2, nkin=1, shared=True)),
                ("com", C(fam, ("cont", 1), acc=True, rep="FORCE", nkin=1, ncols=[5], solver=2)),
                ("com", C(fam, ("cont", 1), nrows=2, nkin=2, solver=2))]
        for cost in ("DISTANCE_TRAVELED",) + (() if O.COM[fam] & 16 else ("TARGET_END_VELOCITY",)):
            out.append(("com", C(fam, ("fixed", 2, 2), cost=cost)))
            out.append(("com", C(fam, ("cont", 2), cost=cost, rep="FORCE")))
        if thorough:
            out += [("com", C(fam, ("cont", 3), acc=True, nrows=[3, 1, 2], nkin=[0, 2, 1])),
                    ("com", C(fam, ("cont", 3), acc=True, rep="FORCE", nkin=[0, 2, 1], ncols=[3, 7, 4])),
                    ("com", C(fam, ("fixed", 4, 3), acc=True, nrows=[1, 3, 2, 6], nkin=[2, 0, 1, 8])),
                    ("com", C(fam, ("step", (4.5, 2.0, 3.75)), acc=True, nrows=[8, 1, 2], nkin=[0, 0, 9]))]
    fam = "c0_dc0_c1"
    out += [("com", C(fam, ("fixed", 5, 2), acc=True, nrows=[1, 2, 1, 3, 1], nkin=[0, 1, 2, 1, 3])),
            ("com", C(fam, ("step", (2.5, 1.25, 2.75, 3.5)), nrows=[1, 2, 1, 3], nkin=[0, 1, 2, 1])),
            ("com", C(fam, ("cont", 4), acc=True, nrows=[1, 2, 1, 1], nkin=[0, 1, 2, 1])),
            ("com", C(fam, ("cont", 4), rep="FORCE", nkin=[0, 1, 2, 1], ncols=[3, 5, 2, 4]))]
    # sizes of real problems
    out += [("com", C(fam, ("fixed", 1, 30), acc=True, nrows=20, nkin=12)),
            ("com", C(fam, ("step", (20.5, 10.25)), acc=True, nrows=[12, 20], nkin=[20, 6])),
            ("com", C(fam, ("cont", 1), acc=True, nrows=100, nkin=70)),
            ("com", C(fam, ("cont", 2), rep="FORCE", nkin=[10, 12], ncols=[64, 16]))]
    if not thorough:
        # the longest curve makes large polynomials: fewer phases
        out = [i for i in out if not (i[1].fam == "c0_dc0_ddc0_j0_j1_ddc1_dc1_c1" and (i[1].n() == 3 and i[1].mode[0] == "fixed" or i[1].n() == 2 and i[1].kw.get("rep") == "FORCE" and "acc" not in i[1].kw))]
    for ang in (False, True):
        for ratio in (None, 0.5, 3.5) + ((12.25,) if thorough else ()):
            for nrows, nkin, nang, dk in ((2, 1, 1, False), (3, 0, 2, False), (1, 2, 0, False), (2, 0, 0, True)):
                out.append(("zero", (ang, ratio, nrows, nkin, nang, dk)))
        out.append(("zero", (ang, 20.5, 20, 12, 8, False)))
    for fam in O.EFF:
        out.append(("ee", (fam, 0.5)))
    names = ["computeConstantWaypoints", "computeConstantWaypointsSymbolic", "computeWwaypoints"]
    for fam in O.COM:
        for n in names:
            out.append(("wp", (O.COM[fam], n)))
    for fam in O.EFF:
        for n in ("computeConstantWaypoints", "computeVelocityWaypoints", "computeAccelerationWaypoints", "computeJerkWaypoints", "computeVelocityCost"):
            out.append(("wp", (O.EFF[fam], n)))
    return out


WITH_PI = ("computeVelocityWaypoints", "computeAccelerationWaypoints", "computeJerkWaypoints", "computeVelocityCost")


def run_one(ck, it, success=True, **over):
    kind, a = it
    if kind == "com":
        c = com.Cfg(a.fam, a.mode, **dict(a.kw, **over))
        r = com.run_com(ck, c, success=success)
        return r, "%s/%s" % (a.fam, a.mode[0])
    if kind == "zero":
        ang, ratio, nrows, nkin, nang, dk = a
        r = com.Run(ck, "zero step, %s angular momentum, %s, %d cone rows, %d kinematic rows, %d angular rows%s" % (
            "with" if ang else "without", "continuous" if ratio is None else "%s steps" % ratio, nrows, nkin, nang, ", default constraints" if dk else ""))
        dt = P.sym("dt", pos=True)
        T = P.sym("T", pos=True) if ratio is None else P.mul(dt, ratio)

        def args(eng):
            r.pd = problem(eng, O.COM["c0_dc0_dc1"], 1, nrows=nrows, nkin=nkin, nang=nang, angular=ang, default_kin=dk, **over)
            return [r.pd, Vec([T]), -1.0 if ratio is None else dt]
        r.go("bezier_com_traj::solve0step", 3, args, success=success)
        return r, "zero step"
    if kind == "ee":
        fam, w = a
        return c13.run_ee(ck, fam, w, success=success), "end effector/" + fam
    flag, n = a
    fam = [k for k, v in list(O.COM.items()) + list(O.EFF.items()) if v == flag][0]
    r = com.Run(ck, "%s, %s" % (fam, n))

    def wargs(eng):
        r.pd = problem(eng, flag, 1, zero=("dc1_",) if O.Spec(flag).stop else ())
        return [r.pd, P.sym("T", pos=True)] + ([Vec([])] if n in WITH_PI else [])
    r.go("bezier_com_traj::" + n, 3 if n in WITH_PI else 2, wargs)
    return r, "%s/%s" % (fam, n)


def numbers(eng, v, seen=None):
    """every scalar inside a value"""
    v = eng.pick(v)
    if isinstance(v, Mat):
        for x in v.d:
            yield x
    elif isinstance(v, Obj):
        for k in sorted(v.f):
            yield from numbers(eng, v.f[k])
    elif isinstance(v, Vec):
        for x in v.v:
            yield from numbers(eng, x)
    elif isinstance(v, P.Poly):
        yield v
