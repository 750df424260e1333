import c13
import com
import oracle as O
import poly as P
import wp
from scen import *

RULE = "every unsupported configuration (constraint set, terminal velocity of the stopping family, number of durations, objective) ends in a throw before the solver is called; every supported one reaches the solver without a throw"
EXPLAIN = "every subset of the boundary conditions, with every free-variable marker, is analysed through every entry point and every dispatched function; the analysis follows the dispatch tables to the handler or to the throw"
FLOOR = 2500
ASSUME = ["a constraint set is supported by an entry point when it is one of the documented families"]

MARK = {"": 0, "two": 256, "three": 512, "four": 1024, "five": 2048, "unknown": 4096, "three and five": 512 | 2048}
# dispatched functions and their arguments: p(roblem), T (duration), w(aypoints), t (time), e (no waypoint given)
TABLE = [("computeConstantWaypoints", "pT"), ("computeConstantWaypointsSymbolic", "pT"), ("computeWwaypoints", "pT"), ("computeFinalVelocityPoint", "pT"),
         ("computeVelocityWaypoints", "pTe"), ("computeAccelerationWaypoints", "pTe"), ("computeJerkWaypoints", "pTe"), ("computeVelocityCost", "pTe"),
         ("evaluateCurveAtTime", "pwt"), ("evaluateVelocityCurveAtTime", "pwTt"), ("evaluateAccelerationCurveAtTime", "pwTt"), ("evaluateJerkCurveAtTime", "pwTt"),
         ("evaluateCurveWaypointAtTime", "pwt"), ("evaluateVelocityCurveWaypointAtTime", "pTwt"), ("evaluateAccelerationCurveWaypointAtTime", "pTwt"), ("evaluateJerkCurveWaypointAtTime", "pTwt")]

def names(flag):
    n = [x for x, b in (("INIT_POS", 1), ("INIT_VEL", 2), ("INIT_ACC", 4), ("INIT_JERK", 64), ("END_POS", 8), ("END_VEL", 16), ("END_ACC", 32), ("END_JERK", 128)) if flag & b]
    n += [k for k, b in MARK.items() if b and flag & ~255 == b]
    return "|".join(n) or "none"


def com_flags(ck, it):
    _, mode, flags = it
    fams = set(O.COM.values())
    for f in flags:
        P.reset()
        r = com.run_com(ck, com.Cfg(f, mode, zero=("dc1_",)))
        r.name = "constraints %s, %s" % (names(f), mode[0])
        verdict(ck, r, "centroidal/%s" % mode[0], f in fams)


def verdict(ck, r, key, supported):
    w = r.where()
    may = ["%s(%s)" % (t[1], t[2]) for t in r.eng.throws]
    if supported:
        ck.require(r.throw is None and not may, key + "/rejected", com.rel(r.throw.loc) if r.throw else w, "%s: a supported problem is rejected: %s" % (r.name, (r.throw and r.throw.msg) or may[:1]))
        if r.throw is None:
            ck.require(len(r.cap.calls) == 1, key + "/rejected", w, "%s: a supported problem reaches the solver %d times" % (r.name, len(r.cap.calls)))
        return
    ck.require(r.throw is not None, key + "/accepted", w, "%s: this configuration is not supported, but the call %s" % (r.name, "hands a problem to the solver" if r.cap.calls else "returns" + (", or throws only when %s" % (r.eng.throws[0][0],) if may else "")))
    ck.require(not r.cap.calls, key + "/accepted", w, "%s: the solver is called before the rejection" % r.name)


def tables(ck, it):
    """functions dispatched on the constraint set: an unsupported set throws"""
    _, flags = it
    fams = set(O.COM.values()) | set(O.EFF.values())
    for f in flags:
        if f in fams:
            continue
        P.reset()
        for n, spec in TABLE:
            call(ck, n, f, spec)


def call(ck, n, flag, spec):
    if not program().fn("bezier_com_traj::" + n, len(spec)):
        return
    r = com.Run(ck, "%s with constraints %s" % (n, names(flag)))

    def args(eng):
        m = {"p": lambda: problem(eng, flag, 1, zero=("dc1_",)), "T": lambda: P.sym("T", pos=True), "t": lambda: P.sym("t"),
             "w": lambda: Vec([v3("p%d" % i) for i in range(13)]), "e": lambda: Vec([])}
        return [m[c]() for c in spec]
    r.go("bezier_com_traj::" + n, len(spec), args)
    ck.require(r.throw is not None, "dispatch/" + n, r.where(), "%s: no such family exists, but the function returns" % r.name)


def ee(ck, it):
    _, flags = it
    for f in flags:
        P.reset()
        r = c13.run_ee(ck, f, 0.5, name="end effector, constraints %s" % names(f))
        verdict(ck, r, "end effector", f in set(O.EFF.values()))


def other(ck, it):
    _, what, a = it
    if what == "velocity":
        # the family that stops at a free position documents a zero terminal velocity
        mode, zero = a
        r = com.run_com(ck, com.Cfg("c0_dc0_dc1", mode, zero=zero))
        r.name = "stopping family, %s, terminal velocity %s" % (mode[0], "zero" if zero else "given")
        if zero:
            verdict(ck, r, "terminal velocity", True)
            return
        w = r.where()
        may = [t for t in r.eng.throws] + ([r.throw] if r.throw else [])
        ck.require(bool(may), "terminal velocity/accepted", w, "%s: a non zero terminal velocity is accepted" % r.name)
        # on the path that goes on, the velocity is known to be zero
        for c in r.cap.calls:
            ok = {x for at, v in c["path"] if at.kind == "eq" and v or at.kind == "gt" and not v for x in P.syms_of(at.p)}
            need = {next(iter(x.t))[0][0] for x in v3("dc1_").d}
            ck.require(need <= ok, "terminal velocity/accepted", w, "%s: the solver is reached without every component of the terminal velocity having been compared with zero" % r.name)
    elif what == "durations":
        entry, n, m = a
        r = com.Run(ck, "%s: %d durations for %d phases" % (entry, m, n))
        np = 3 if entry.endswith("FixedSize") else 4

        def args(eng):
            pd = problem(eng, O.COM["c0_dc0_c1"], n)
            tv = Mat(m, 1, [P.sym("T%d" % i, pos=True) for i in range(m)])
            return [pd, tv, 3] if np == 3 else [pd, tv, -1.0, 1]
        r.go("bezier_com_traj::" + entry, np, args)
        verdict(ck, r, "durations", False)


def one(ck, it):
    {"com": com_flags, "tables": tables, "ee": ee, "other": other}[it[0]](ck, it)


def run(ck):
    ck.units = len(com.program([c13.TU]).tus)
    out = []
    full = sorted(set(O.COM.values()) | {O.FULL})
    marks = [f | b for f in full for b in MARK.values() if b]
    sets = list(range(256)) + marks
    if ck.thorough:
        sets = [f | b for b in MARK.values() for f in range(256)]
    step = 44
    for m in (("fixed", 1, 2), ("step", (2.5,)), ("cont", 1)) + ((("cont", 2), ("fixed", 2, 2)) if ck.thorough else ()):
        for i in range(0, len(sets), step):
            out.append(("com", m, sets[i:i + step]))
    for i in range(0, len(sets), step):
        out.append(("tables", sets[i:i + step]))
        out.append(("ee", sets[i:i + step]))
    for m in (("fixed", 1, 2), ("step", (2.5,)), ("cont", 1)):
        for z in ((), ("dc1_",)):
            out.append(("other", "velocity", (m, z)))
    for e in ("computeCOMTraj", "computeCOMTrajFixedSize"):
        for n, m in ((1, 2), (2, 1), (3, 2), (2, 3), (1, 0)):
            out.append(("other", "durations", (e, n, m)))
    ck.map(one, out)
