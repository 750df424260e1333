"""Analysis of the public entry points, one configuration at a time, and the
rows / costs / curves the problem statement requires for that configuration."""
import math

import load
import match as M
import oracle as O
import poly as P
import values as V
from poly import Top
from scen import *

REDUCE = None
GENERIC = True      # rows of the stability cone are not zero, unless a check says otherwise


class Run:
    """one analysed configuration of an entry point"""

    def __init__(self, ck, name):
        self.ck, self.name = ck, name
        self.cap = Capture()
        self.eng = None
        self.throw = None
        self.res = None
        self.generic = GENERIC

    def go(self, fname, np, mkargs, hooks=None, extra=(), success=True, prog=None):
        hk = {"solvers::solve": self.cap.hook}
        self.cap.success = success
        hk.update(hooks or {})
        self.eng = engine(prog or program(extra), hk)
        self.eng.assume_nz = ("H",) if self.generic else ()
        args = mkargs(self.eng)
        self.args = args
        f = self.eng.prog.fn(fname, np)
        if not f:
            raise load.Broken("entry point %s with %d parameters not found" % (fname, np))
        self.fn = f[0]
        self.mem0 = dict(self.eng.mem)
        P.WATCH = self.eng.watch
        try:
            self.res = self.eng.rv(self.eng.call(self.fn, args))
        except AbsThrow as e:
            self.throw = e
        except Abort:
            # what was already wrong on the way there is reported
            bad_events(self.ck, self.eng, "memory", self.name)
            raise
        finally:
            P.WATCH = None
        self.ck.scenario(self.name)
        self.ck.absorb(self.eng)
        return self

    def where(self):
        return "%s:%d" % (rel(self.fn["file"]), self.fn["l"])

    def usable(self, key, single=True):
        """reports aborted or tainted runs; True when the captured problem can be compared"""
        ck = self.ck
        if self.throw is not None:
            ck.require(False, key + "/rejected", rel(self.throw.loc), "%s: the entry point throws %s(%s) for a supported problem" % (self.name, self.throw.typ, self.throw.msg))
            return False
        if self.eng.throws:
            t = self.eng.throws[0]
            ck.require(False, key + "/rejected", rel(t[3]), "%s: the entry point may throw %s(%s) for a supported problem, when %s" % (self.name, t[1], t[2], t[0]))
            return False
        if bad_events(ck, self.eng, key, self.name) or bad_state(ck, self.eng, key, self.name):
            return False
        if single and len(self.cap.calls) != 1:
            ck.require(False, key + "/solver", self.where(), "%s: the solver entry is reached %d times instead of once" % (self.name, len(self.cap.calls)))
            return False
        return True


def bad_events(ck, eng, key, name):
    """memory-safety events make everything computed from them meaningless"""
    if not eng.events:
        return False
    for kind, loc, msg, fn in eng.events[:4]:
        ck.require(False, key + "/" + kind, rel(loc), "%s: %s in %s" % (name, msg, fn))
    return True


def bad_state(ck, eng, key, name):
    """state kept from one call to the next makes the outcome depend on the calls before"""
    h = eng.hidden_state()
    for loc, msg in h[:4]:
        ck.require(False, key + "/state", rel(loc), "%s: %s: the outcome depends on the calls made before" % (name, msg))
    return bool(h)


def settled(ck, key, where, f, name):
    """the solver succeeded: so does the result, whatever the solution is"""
    v = f["success_"]
    return ck.require(v is True or (P.isnum(v) and v == 1), key + "/success", where,
                      "%s: the result is %s although the solver succeeded" % (name, "not marked successful" if v in (False, 0) else "marked successful only under a condition"))


def rel(p):
    r = load.REPO.rstrip("/") + "/"
    return p[len(r):] if p and p.startswith(r) else (p or "")


# ------------------------------------------------------------------ sampling
def times_fixed(Ts, T, pts):
    """pointsPerPhase equal subdivisions of every phase, t=0 included; (t, phases)"""
    out = [(0, [0])]
    t = 0
    n = len(Ts)
    for i in range(n):
        for j in range(1, pts + 1):
            tt = P.add(t, P.mul(Ts[i], j / pts))
            ph = [i]
            if j == pts and i + 1 < n:
                ph = [i, i + 1]
            if j == pts and i + 1 == n:
                tt = T
            out.append((tt, ph))
        t = P.add(t, Ts[i])
    return out


def times_step(ratios, dt):
    """multiples of the step from the start of every phase, and the end of every phase"""
    out = []
    t = 0.0
    n = len(ratios)
    for i, r in enumerate(ratios):
        k = 0
        while k < r - 1e-9:
            ph = [i] if not (k == 0 and i > 0) else [i - 1, i]
            out.append((P.mul(dt, t + k), ph))
            k += 1
        t += r
        out.append((P.mul(dt, t), [i] + ([i + 1] if i + 1 < n else [])))
    return out


# ---------------------------------------------------------------- computeCOMTraj
class Cfg:
    """flag: family name; mode: ("step", ratios) | ("fixed", n, pts) | ("cont", n)"""

    def __init__(self, fam, mode, **kw):
        self.fam, self.mode, self.kw = fam, mode, kw

    def __repr__(self):
        m = self.mode
        if m[0] == "step":
            s = "time step, phases of %s steps" % (m[1],)
        elif m[0] == "fixed":
            s = "%d points per phase, %d phase(s)" % (m[2], m[1])
        else:
            s = "continuous, %d phase(s)" % m[1]
        k = ", ".join("%s=%s" % i for i in sorted(self.kw.items()))
        return "%s, %s%s" % (self.fam, s, ", " + k if k else "")

    def n(self):
        return len(self.mode[1]) if self.mode[0] == "step" else self.mode[1]

    def times(self):
        """durations, total, sample instants"""
        m = self.mode
        if m[0] == "step":
            dt = self.kw.get("dt") or P.sym("dt", pos=True)
            Ts = [P.mul(dt, r) for r in m[1]]
            return Ts, P.mul(dt, sum(m[1])), times_step(m[1], dt)
        if "dur" in self.kw:
            Ts = [float(x) for x in self.kw["dur"]]
            T = sum(Ts)
        else:
            Ts, T = durations(m[1])
        return Ts, T, times_fixed(Ts, T, m[2] if m[0] == "fixed" else 7)


def run_com(ck, cfg, success=True, hooks=None):
    solver = cfg.kw.get("solver", 1)
    r = Run(ck, repr(cfg))
    m = cfg.mode
    n = cfg.n()
    flag = O.COM[cfg.fam] if isinstance(cfg.fam, str) else cfg.fam

    if O.Spec(flag).stop and "zero" not in cfg.kw:
        cfg.kw["zero"] = ("dc1_",)      # the family that stops at a free position documents a zero final velocity

    def args(eng):
        r.pd = problem(eng, flag, n, **{k: v for k, v in cfg.kw.items() if k not in ("solver", "dur", "dt")})
        Ts, r.T, r.samples = cfg.times()
        r.Ts = Ts
        tv = Mat(n, 1, Ts)
        if m[0] == "fixed":
            return [r.pd, tv, m[2]]
        return [r.pd, tv, (cfg.kw.get("dt") or P.sym("dt", pos=True)) if m[0] == "step" else -1.0, solver]
    r.flag = flag
    r.go("bezier_com_traj::computeCOMTrajFixedSize" if m[0] == "fixed" else "bezier_com_traj::computeCOMTraj", 3 if m[0] == "fixed" else 4, args,
         hooks=hooks, success=success)
    r.spec = O.Spec(flag)
    r.o = r.eng.load(r.pd).f
    r.cps = r.spec.points(r.o, r.T)
    r.g = gravity().d
    return r


def phase(r, i):
    """cone, kinematic constraints of phase i"""
    co = r.o["contacts_"].v[i].f
    eq = r.eng.load(co["contactPhase_"].ref).f
    return eq, co


def redh(r):
    c = r.o["constraints_"].f
    v = c["reduce_h_"]
    return None if P.isnum(v) and v <= 0 else v


def expected_discrete(r):
    exp = []
    T = r.T
    acc = r.o["constraints_"].f["constraintAcceleration_"]
    dd2 = O.derive(O.derive(r.cps, T), T)
    for tt, phs in r.samples:
        u = P.div(tt, T)
        c = O.evaluate(r.cps, u)
        dd = O.evaluate(dd2, u)
        w = dd + O.cross(c, [P.sub(x, y) for x, y in zip(dd, r.g)])
        for ph in phs:
            eq, co = phase(r, ph)
            nm = "t=%s phase %d" % (P.pstr(tt), ph)
            exp += O.stability_rows(eq["H"], w, r.g, redh(r), nm)
            exp += O.kin_rows(co["Kin_"], co["kin_"], c, nm)
        if acc:
            exp += O.acc_rows(dd, r.o["constraints_"].f["maxAcceleration_"], "t=%s" % P.pstr(tt))
    return exp


def expected_continuous(r, wdeg, stab=True):
    exp = []
    T = r.T
    acc = r.o["constraints_"].f["constraintAcceleration_"]
    dd2 = O.derive(O.derive(r.cps, T), T)
    w = at_degree(O.wrench(r.cps, T, r.g), wdeg)
    a = 0
    for i, Ti in enumerate(r.Ts):
        b = P.add(a, Ti)
        if i + 1 == len(r.Ts):
            b = T
        ua, ub = P.div(a, T), P.div(b, T)
        if len(r.Ts) == 1:
            ua, ub = 0, 1
        eq, co = phase(r, i)
        for k, p in enumerate(O.restrict(r.cps, ua, ub)):
            exp += O.kin_rows(co["Kin_"], co["kin_"], p, "control point %d of phase %d" % (k, i))
        if stab:
            for k, p in enumerate(O.restrict(w, ua, ub)):
                exp += O.stability_rows(eq["H"], p, r.g, redh(r), "wrench control point %d of phase %d" % (k, i))
        if acc:
            for k, p in enumerate(O.restrict(dd2, ua, ub)):
                exp += O.acc_rows(p, r.o["constraints_"].f["maxAcceleration_"], "acceleration control point %d of phase %d" % (k, i))
        a = b
    return exp


def to_mono(pts):
    """coefficients of u^k of a Bezier curve"""
    n = len(pts) - 1
    out = []
    for k in range(n + 1):
        v = [0] * len(pts[0])
        for i in range(k + 1):
            c = math.comb(n, k) * math.comb(k, i) * (-1) ** (k - i)
            v = [P.add(x, P.scale(y, c)) if not P.isnum(y) else P.add(x, y * c) for x, y in zip(v, pts[i])]
        out.append(v)
    return out


def at_degree(pts, deg):
    """the same curve with deg+1 control points; Abort when its degree is higher"""
    n = len(pts) - 1
    if deg == n:
        return pts
    if deg > n:
        return O.elevate(pts, deg)
    co = to_mono(pts)
    for k in range(deg + 1, n + 1):
        for x in co[k]:
            if not P.is_zero(x, 1e-7, None):
                return None
    out = []
    for i in range(deg + 1):
        v = [0] * len(pts[0])
        for k in range(i + 1):
            c = math.comb(i, k) / math.comb(deg, k)
            v = [P.add(x, P.mul(c, y)) for x, y in zip(v, co[k])]
        out.append(v)
    return out


def rows_of(A, b, xs):
    return [M.rowpoly(A, b, i, xs) for i in range(A.r)], [A.l[i * A.c] or None for i in range(A.r)]


def compare_rows(ck, r, key, actual, locs, exp):
    rep = M.Report()
    M.match_rows(actual, locs, exp, rep, r.name)
    ck.ok(rep.obligations)
    for what, loc, det in rep.bad:
        kind = "missing row" if "missing" in what else "extra row"
        ck.fail("%s/%s" % (key, kind), rel(loc_s(loc)) or r.where(), what + "; " + det)
    if exp:
        ck.sample("%s: %s  <=>  %s <= 0" % (r.name, exp[-1].what, P.pstr(exp[-1].p, 160)))


def loc_s(l):
    if not l:
        return ""
    return "%s:%d" % (l[0], l[1]) if isinstance(l, tuple) else str(l)


# ------------------------------------------------------------- value equality
def eqsubst(p, asg):
    """uses the equalities assumed in a case"""
    for at, v in asg.items():
        if at.kind == "eq" and v:
            q = at.p
            for m, c in q.t.items():
                if len(m) == 1 and m[0][1] == 1 and P.SYMS[m[0][0]].kind == "in":
                    s = m[0][0]
                    rest = P.sub(q, P.Poly({m: c}) if hasattr(P, "Poly") else q)
                    if s in P.syms_of(rest):
                        continue
                    p = P.subst(p, {s: P.mul(-1.0 / c, rest)})
                    break
    return p


def same(ck, key, where, got, want, what, tol=1e-7):
    """scalar equality in every undecided case"""
    ck.ok()
    got = P.num(got) if not isinstance(got, (Top,)) else got
    if isinstance(got, Top):
        raise Abort("%s: value is unknown: %s" % (what, got.why))
    ats = M.gamma_atoms(got, set())
    for asg in (M.assignments(ats) if ats else [{}]):
        p = M.resolve(got, asg) if asg else got
        if P.equal(p, want, tol):
            continue
        if asg and P.equal(eqsubst(p, asg), eqsubst(want, asg), tol):
            continue
        ck.fail(key, where, "%s: is %s, must be %s%s" % (what, P.pstr(p, 160), P.pstr(want, 160), " (when %s)" % asg if asg else ""))
        return False
    return True


def same_vec(ck, key, where, got, want, what):
    ok = True
    if isinstance(got, Mat):
        g = got.d
    elif isinstance(got, (list, tuple)):
        g = got
    else:
        raise Abort("%s: not a vector value (%r)" % (what, got))
    if len(g) != len(want):
        ck.require(False, key, where, "%s has %d entries instead of %d" % (what, len(g), len(want)))
        return False
    for i, (a, b) in enumerate(zip(g, want)):
        ok = same(ck, key, where, a, b, "%s [%d]" % (what, i)) and ok
    return ok


def with_solution(pts, spec, xs):
    """control points with the free points replaced by the solver's solution"""
    tab = {}
    for v, x in zip(spec.var_list(), xs):
        (m, _), = v.t.items()
        tab[m[0][0]] = x
    return [[P.subst(c, tab) if isinstance(c, P.Poly) else c for c in p] for p in pts]


def direction(got, want, scales=("T",), tol=1e-6, span=4):
    """None when got = lambda * scale^k * want with one positive number lambda; else why not"""
    for g in got:
        if isinstance(g, Top):
            raise Abort("unknown value: %s" % g.why)
    ref = None
    for g, w in zip(got, want):
        if not P.is_zero(P.num(w), 1e-12):
            ref = w
            break
    if ref is None:
        return None if all(P.is_zero(P.num(g), 1e-12) for g in got) else "must be zero, is %s" % P.pstr(got[0], 160)
    best = None
    for s in scales:
        S = P.sym(s, pos=True)
        for k in sorted(range(-span, span + 1), key=abs):
            f = P.powi(S, k)
            why = _direction([P.mul(g, f) for g in got], want, tol)
            if why is None:
                return None
            if best is None or why[0] > best[0]:
                best = why
    return best[1]


def _direction(got, want, tol):
    lam = None
    n = 0
    for i, (g, w) in enumerate(zip(got, want)):
        tg, tw = dict(P.terms(P.num(g))), dict(P.terms(P.num(w)))
        big = max([abs(c) for c in tw.values()] or [0])
        for m in sorted(set(tg) | set(tw)):
            a, b = tg.get(m, 0), tw.get(m, 0)
            if lam is None and abs(b) > 1e-12 * big:
                lam = a / b
                if lam <= 0:
                    return n, "entry %d: the term %s has the coefficient %s for %s, not a positive multiple" % (i, P.mstr(m), a, b)
            if abs(a - (lam or 0) * b) > tol * (lam or 0) * big:
                return n, "entry %d: the term %s has the coefficient %s instead of %s" % (i, P.mstr(m), a, (lam or 0) * b)
            n += 1
    return None


def diff(p, x):
    """derivative with respect to one symbol, polynomial in it"""
    (m, _), = x.t.items()
    s = m[0][0]
    out = 0
    if P.isnum(p):
        return 0
    for mo, c in p.t.items():
        e = dict(mo).get(s, 0)
        if e:
            rest = tuple((a, b - 1 if a == s else b) for a, b in mo if not (a == s and b == 1))
            out = P.add(out, P.mk({rest: c * e}))
    return out
