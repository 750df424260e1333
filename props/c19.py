import com
import cover
import oracle as O
import poly as P
from scen import *

RULE = "when the cone of a contact phase cannot be computed, no entry point that needs it returns a successful result: it throws or reports failure; in particular the stability rows of that phase are never dropped"
EXPLAIN = "every entry point is analysed with each phase in turn failing, for every status the cone computation can report; the outcome on each path is read from the value flow"
FLOOR = 300
ASSUME = ["the force representation does not need the cone"]


def one(ck, it):
    kind, a, status, failing = it
    st = list(status)
    if kind == "com":
        cfg = com.Cfg(a[0], a[1], status=st)
        r = com.run_com(ck, cfg)
        key = "%s/%s" % (a[0], a[1][0])
    else:
        ang, ratio = a
        r = com.Run(ck, "zero step, %s angular momentum, %s" % ("with" if ang else "without", "continuous" if ratio is None else "%s steps" % ratio))
        dt = P.sym("dt", pos=True)
        T = P.sym("T", pos=True) if ratio is None else P.mul(dt, ratio)
        r.go("bezier_com_traj::solve0step", 3, lambda e: [problem(e, O.COM["c0_dc0_dc1"], 1, angular=ang, status=st), Vec([T]), -1.0 if ratio is None else dt])
        key = "zero step"
    r.name += ", cone status %s" % (st,)
    w = r.where()
    if com.bad_events(ck, r.eng, key, r.name):
        return
    if not failing:
        # control: with a computed cone the call goes through
        if r.usable(key):
            ck.require(r.eng.pick(r.res).f["success_"] in (True, 1), key + "/control", w, "%s: not successful" % r.name)
        return
    if r.throw is not None:
        ck.require(not r.cap.calls, key + "/solver", com.rel(r.throw.loc), "%s: the solver is called before the failure is reported" % r.name)
        ck.ok()
        return
    v = r.eng.pick(r.res)
    if not isinstance(v, Obj):
        raise Abort("result of unknown shape")
    s = v.f["success_"]
    if not isinstance(s, (bool, int)):
        raise Abort("undecided success flag %r" % (s,))
    ck.require(not s, key + "/dropped", w, "%s: the result is marked successful although the stability constraints of a phase are unknown" % r.name)
    for x in cover.numbers(r.eng, v.f["c_of_t_"].f["wps"]):
        ck.require(P.isnum(x) and abs(x) < 1e-12, key + "/trajectory", w, "%s: an unsuccessful result carries a trajectory" % r.name)


def run(ck):
    ck.units = len(com.program().tus)
    out = []
    codes = (1, 2, 3, 4, -1) if not ck.thorough else (1, 2, 3, 4, 5, 6, -1, -2, 100)
    for fam in O.COM:
        for m in (("fixed", 1, 2), ("fixed", 2, 2), ("step", (2.5, 3.25)), ("cont", 1), ("cont", 2)) + (("step", (1.5, 0.5, 2.0)), ("step", (1.5, 1.0, 0.5, 1.25, 1.75))) + ((("fixed", 3, 1),) if ck.thorough or O.Spec(O.COM[fam]).deg < 6 else ()) + ((("cont", 3),) if ck.thorough or fam == "c0_dc0_c1" else ()):
            n = com.Cfg(fam, m).n()
            for k in range(n):
                for c in (codes if (fam == "c0_dc0_c1" or ck.thorough) else (codes[k % len(codes)],)):
                    out.append(("com", (fam, m), tuple(c if i == k else 0 for i in range(n)), True))
            if n > 1:
                out.append(("com", (fam, m), tuple([codes[0]] * n), True))
    for k in range(6):
        out.append(("com", ("c0_dc0_c1", ("fixed", 6, 1)), tuple(codes[0] if i == k else 0 for i in range(6)), True))
        out.append(("com", ("c0_dc0_c1", ("step", (1.25,) * 6)), tuple(codes[0] if i == k else 0 for i in range(6)), True))
    for ang in (False, True):
        for ratio in (None, 2.5):
            for c in codes:
                out.append(("zero", (ang, ratio), (c,), True))
            out.append(("zero", (ang, ratio), (0,), False))
    out.append(("com", ("c0_dc0_c1", ("fixed", 2, 2)), (0, 0), False))
    ck.map(one, out)
