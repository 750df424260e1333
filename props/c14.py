import c13
import com
import cover
import poly as P
import values as V
from poly import Top
from scen import *

RULE = "in every configuration: every index is inside its container, every matrix operation has matching sizes, no null or dead object is used, and nothing handed to the solver or returned comes from memory never written"
EXPLAIN = "abstract interpretation with exact sizes: container lengths, matrix dimensions, block offsets and indices are constants of each configuration, so that every access is decided; memory is born as distinct 'never written' values that are tracked to the solver's arguments and to the result"
FLOOR = 2000
ASSUME = ["at least one contact phase; matrices and vectors of one constraint have the same number of rows", "the initial guess of the end effector problem, which no back end reads, is not looked at"]


def unwritten(x):
    if isinstance(x, Top):
        return x.why if "uninit" in x.why else None
    if not isinstance(x, P.Poly):
        return None
    for s in P.syms_of(x):
        k = P.SYMS[s]
        if k.kind == "uninit":
            return k.name
    return None


def one(ck, it):
    item, success = it
    r, key = cover.run_one(ck, item, success=success)
    r.name += "" if success else ", solver fails"
    w = r.where()
    if com.bad_events(ck, r.eng, key, r.name):
        return
    ck.ok(r.eng.checked)
    if r.throw is not None or r.eng.throws:
        r.usable(key, single=False)
        return
    for c in r.cap.calls:
        names = ("inequality matrix", "inequality vector", "equality matrix", "equality vector", "cost matrix", "cost vector", "initial guess", "lower bounds", "upper bounds")
        for i, nm in enumerate(names):
            for x in cover.numbers(r.eng, c["args"][i]):
                u = unwritten(x)
                if not ck.require(u is None, key + "/uninitialised", com.rel(c["loc"]), "%s: an entry of the %s given to the solver was never written (%s)" % (r.name, nm, u)):
                    break
        A, b, D, d, H, g = c["args"][:6]
        n = g.r
        dims = A.r == b.r and D.r == d.r and (A.r == 0 or A.c == n) and (D.r == 0 or D.c == n) and H.r == n and H.c == n and all(v.r in (0, n) for v in c["args"][7:9])
        ck.require(dims, key + "/sizes", com.rel(c["loc"]), "%s: the sizes given to the solver do not agree: A %dx%d, b %d, D %dx%d, d %d, H %dx%d, g %d, bounds %s" % (
            r.name, A.r, A.c, b.r, D.r, D.c, d.r, H.r, H.c, n, [v.r for v in c["args"][7:9]]))
    for x in cover.numbers(r.eng, r.res):
        u = unwritten(x)
        if not ck.require(u is None, key + "/uninitialised", w, "%s: a value of the result was never written (%s)" % (r.name, u)):
            break


def run(ck):
    ck.units = len(com.program([c13.TU]).tus)
    out = []
    for it in cover.scenarios(ck.thorough):
        out.append((it, True))
        if it[0] != "wp" and (ck.thorough or it[0] in ("zero", "ee") or it[1].mode[0] == "cont"):
            out.append((it, False))
    ck.map(one, out)
