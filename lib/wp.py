"""Analysis of the public waypoint functions: constant waypoints, symbolic
waypoints, evaluators of the curve and of its derivatives."""
import com
import oracle as O
import poly as P
from scen import *

NS = "bezier_com_traj::"


def call(ck, name, flag, mk, key, tag):
    """run NS+name on a symbolic problem; returns (run, value) or None when rejected"""
    r = com.Run(ck, tag)
    box = {}

    def args(eng):
        r.pd = problem(eng, flag, 1, zero=("dc1_",) if O.Spec(flag).stop else ())
        r.o = eng.load(r.pd).f
        return mk(r, eng)
    prog = program()
    n = len(mk(None, None))
    r.go(NS + name, n, args)
    if r.throw is not None:
        ck.require(False, key + "/rejected", com.rel(r.throw.loc), "%s throws %s(%s)" % (tag, r.throw.typ, r.throw.msg))
        return None
    if r.eng.throws:
        t = r.eng.throws[0]
        ck.require(False, key + "/rejected", com.rel(t[3]), "%s may throw %s(%s) when %s" % (tag, t[1], t[2], t[0]))
        return None
    if com.bad_events(ck, r.eng, key, tag) or com.bad_state(ck, r.eng, key, tag):
        return None
    return r, r.eng.pick(r.res)


def affine(v, xs, dim):
    """value of an affine description (matrix or scalar coefficient, constant) at the free points xs"""
    if isinstance(v, Obj):
        a, b = v.f["first"], v.f["second"]
    else:
        raise Abort("not a waypoint value (%r)" % (v,))
    out = []
    if not isinstance(b, Mat):
        raise Abort("waypoint constant is not a vector (%r)" % (b,))
    for i in range(b.r):
        e = b.d[i]
        if isinstance(a, Mat):
            for j in range(a.c):
                e = P.add(e, P.mul(a.d[i * a.c + j], xs[j]))
        else:
            e = P.add(e, P.mul(a, xs[i]))
        out.append(e)
    return out


def pts_of(eng, v):
    return [eng.pick(x) for x in v.v]


def consts(spec, pd, T):
    """constant waypoints, zero at the free places"""
    pts = spec.points(pd, T)
    free = spec.vars()
    k0 = len(spec.ini)
    return [[0, 0, 0] if k0 <= i < k0 + spec.nmid else p for i, p in enumerate(pts)]
