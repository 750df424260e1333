import com
import oracle as O
import poly as P
import wp
from scen import *

RULE = "the wrench description, as a curve, = [c''; c x (c'' - g)] of the curve defined by the boundary conditions (both written at one common degree)"
EXPLAIN = "every family is analysed once with symbolic data, duration, gravity and free point; the wrench control points are compared with those of the wrench of the curve, after elevation to one degree"
FLOOR = 300


def one(ck, fam):
    flag = O.COM[fam]
    spec = O.Spec(flag)
    T = P.sym("T", pos=True)
    xs = spec.var_list()
    zero = ("dc1_",) if spec.stop else ()
    data = {n: (fill(3, 1, 0) if n in zero else v3(n)) for n in VECS}
    cps = spec.points(data, T)
    key = fam
    z = wp.call(ck, "computeWwaypoints", flag, lambda r, e: [r and r.pd, T], key, fam + ", wrench waypoints")
    if not z:
        return
    r, v = z
    got = [wp.affine(p, xs, 6) for p in wp.pts_of(r.eng, v)]
    want = O.wrench(cps, T, gravity().d)
    if not ck.require(len(got) >= 2 and all(len(p) == 6 for p in got), key + "/shape", r.where(), "%s: not a 6D curve" % fam):
        return
    n = max(len(got), len(want)) - 1
    got, want = (p if len(p) == n + 1 else O.elevate(p, n) for p in (got, want))
    for k in range(n + 1):
        for i in range(6):
            com.same(ck, "%s/%s" % (key, "linear" if i < 3 else "angular"), r.where(), got[k][i], want[k][i],
                     "%s: control point %d (of the wrench written at degree %d), component %d" % (fam, k, n, i), tol=1e-7)
    ck.sample("%s: control point 1, x torque = %s" % (fam, P.pstr(want[1][3], 160)))


def run(ck):
    ck.units = len(com.program().tus)
    ck.map(one, list(O.COM))
