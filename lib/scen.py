"""Abstract inputs of the analysed entry points (symbolic problem data) and the
intercepted calls (contact cone computation, QP/LP solver)."""
import load
import poly as P
import values as V
from poly import Top
from values import *
from engine import *
from models import *

INIT_POS, INIT_VEL, INIT_ACC, END_POS, END_VEL, END_ACC, INIT_JERK, END_JERK = (1, 2, 4, 8, 16, 32, 64, 128)

_prog = {}


def program(extra=()):
    key = tuple(extra)
    if key not in _prog:
        _prog[key] = Program(load.export(load.sources() + list(extra)))
    return _prog[key]


def v3(name, **k):
    return Mat(3, 1, [P.sym("%s%s" % (name, a), **k) for a in "xyz"])


def vec(name, n, **k):
    return Mat(n, 1, [P.sym("%s%d" % (name, i), **k) for i in range(n)])


def mat(name, r, c):
    return Mat(r, c, [P.sym("%s_%d_%d" % (name, i, j)) for i in range(r) for j in range(c)])


def gravity():
    """the contact library fixes the direction of gravity: (0, 0, -9.81)"""
    return Mat(3, 1, [0, 0, P.sym("g0z")])


def equilibrium(tag, nrows=2, ncols=4, status=0):
    return Obj("centroidal_dynamics::Equilibrium", {
        "m_mass": P.sym("mass" + tag, pos=True), "m_gravity": gravity(),
        "m_G_centr": mat("G" + tag, 6, ncols),
        "H": mat("H" + tag, nrows, 6), "tag": Str(tag), "status": status, "alg": 3})


def h_polytope(eng, e, obj, args):
    o = eng.rv(obj)
    o = eng.pick(o)
    if not isinstance(o, Obj):
        return Top("cone of unknown phase")
    H = o.f["H"]
    eng.trace.append(("cone", o.f["tag"], eng.here()))
    if o.f["status"] != 0:
        # the library leaves its outputs untouched when it fails
        return o.f["status"]
    eng.store(args[0], Mat(H.r, H.c, H.d, [eng.loc] * len(H.d)))
    eng.store(args[1], fill(H.r, 1, 0))
    return 0


def h_alg(eng, e, obj, args):
    return eng.pick(eng.rv(obj)).f["alg"]


class Capture:
    """records the arguments of the first-party solver entry and returns a symbolic result"""

    def __init__(self, success=True):
        self.calls = []
        self.success = success

    def hook(self, eng, e, obj, args):
        vals = [eng.rv(a) for a in args]
        self.calls.append({"args": vals, "loc": eng.here(), "path": list(eng.path)})
        n = None
        g = vals[5]
        n = g.r if isinstance(g, Mat) else 3
        return Obj("solvers::ResultData", {"success_": self.success, "cost_": P.sym("qpcost"), "x": vec("x", n)})


BASE_HOOKS = {
    "centroidal_dynamics::Equilibrium::getPolytopeInequalities": h_polytope,
    "centroidal_dynamics::Equilibrium::getAlgorithm": h_alg,
}


def engine(prog, hooks=None, **kw):
    h = dict(BASE_HOOKS)
    h.update(hooks or {})
    return Interp(prog, h, **kw)


def make(eng, cls, args=(), nparams=None):
    """object of a repository class through its constructor"""
    short = cls.split("::")[-1]
    c = [f for f in eng.prog.byname.get(cls + "::" + short, []) if len(f["p"]) == len(args) and not f.get("copy")]
    if args:
        c = [f for f in c if eng.prog.tus[f["tu"]][f["p"][0]["t"]]["k"] not in ("ref", "rref")]
    if not c:
        raise load.Broken("no constructor of %s with %d parameters" % (cls, len(args)))
    f = c[0]
    t = {"k": "rec", "n": cls, "r": [u for u, r in eng.prog.records.items() if r["n"] == cls][0]}
    this = eng.new(eng.default(t, f["tu"]))
    eng.call(f, list(args), this)
    return this


VECS = ("c0_", "dc0_", "ddc0_", "j0_", "c1_", "dc1_", "ddc1_", "j1_", "l0_")


def zero_rows(m, rows):
    return Mat(m.r, m.c, [0 if j // m.c in rows else x for j, x in enumerate(m.d)]) if rows else m


def problem(eng, flag, nphase=1, nrows=2, nkin=1, nang=1, acc=False, cost="ACCELERATION", rep="DOUBLE_DESCRIPTION", angular=False, ncols=None, zero=(), status=None, red=None, default_kin=False, shared=False, like=(), hzero=(), kzero=(), still=False):
    """symbolic ProblemData; returns a Ref.  shared: the phases use the same contact model object, or the one of that number; like: pairs of
    vectors with the same value; hzero, kzero: rows of the cones and of the kinematic constraints that are zero; still: no gravity"""
    pd = make(eng, "bezier_com_traj::ProblemData")
    o = eng.load(pd)
    f = dict(o.f)
    for k in VECS:
        f[k] = fill(3, 1, 0) if k in zero else v3(k)
    for k, o2 in like:
        f[k] = f[o2]
    f["useAngularMomentum_"] = angular
    f["costFunction_"] = eng.prog.enumval[cost] if isinstance(cost, str) else cost
    f["representation_"] = eng.prog.enumval[rep] if isinstance(rep, str) else rep
    c = f["constraints_"]
    cf = dict(c.f)
    cf["flag_"] = flag
    cf["constraintAcceleration_"] = acc
    cf["maxAcceleration_"] = P.sym("amax", pos=True)
    cf["reduce_h_"] = P.sym("reduce_h", pos=True) if red is None else red
    f["constraints_"] = Obj(c.t, cf)
    cs = []
    eqs = {}
    for i in range(nphase):
        # shared: one contact model for all phases, or the number of the model of each phase
        k = shared[i] if isinstance(shared, (list, tuple)) else 0 if shared else i
        eq = eqs.get(k)
        if eq is None:
            eq = eng.new(equilibrium(str(i), nrows if isinstance(nrows, int) else nrows[i], (ncols or [4] * nphase)[i],
                                     (status or [0] * nphase)[i]))
            if hzero or still:
                ef = dict(eng.load(eq).f)
                ef["H"] = zero_rows(ef["H"], hzero)
                if still:
                    ef["m_gravity"] = fill(3, 1, 0)
                eng.store(eq, Obj(eng.load(eq).t, ef))
            eqs[k] = eq
        cd = make(eng, "bezier_com_traj::ContactData", [Ptr(eq)])
        co = dict(eng.load(cd).f)
        nk = nkin if isinstance(nkin, int) else nkin[i]
        if not default_kin:
            co["Kin_"] = zero_rows(mat("K%d" % i, nk, 3), kzero)
            co["kin_"] = vec("k%d_" % i, nk)
        na = nang if isinstance(nang, int) else nang[i]
        if not default_kin:
            co["Ang_"] = mat("L%d" % i, na, 3)
            co["ang_"] = vec("l%d_" % i, na)
        cs.append(Obj("bezier_com_traj::ContactData", co))
    f["contacts_"] = Vec(cs)
    eng.store(pd, Obj(o.t, f))
    return pd


def durations(n):
    """symbolic positive phase durations T0..Tn-1 whose sum is the symbol T"""
    T = P.sym("T", pos=True)
    if n == 1:
        return [T], T
    ts = [P.sym("T%d" % i, pos=True) for i in range(n - 1)]
    last = T
    for t in ts:
        last = P.sub(last, t)
    hid = P.sym("T%d'" % (n - 1), pos=True)
    tot = hid
    for t in ts:
        tot = P.add(tot, t)
    (m, _), = T.t.items()
    P.SIGNSUB[m[0][0]] = tot
    return ts + [last], T
