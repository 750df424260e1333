import itertools
import math
import os
import random

import com
import load
import oracle as O
import poly as P
from engine import Abort
from poly import Top
from scen import *
from qphard import HARD
from c16 import clean

RULE = ("the dense QP solver returns 'optimal' with the point, multipliers, active set and cost of the constrained minimum, whatever the (positive definite) cost and the unconstrained minimiser; "
        "it never returns 'optimal' for an infeasible problem or dependent equalities; it stops within the iteration limit; it stays inside its arrays and depends on no earlier solve")
EXPLAIN = ("the solver is analysed by value flow on problems whose cost matrix L L^T, minimiser c and scale a are symbols; the constraints are given by their position relative to the cost (normal L v, slack b a at c); "
           "the returned values are compared, as polynomials, with the minimum found by enumerating the active sets of the reduced problem")
FLOOR = 500
ASSUME = ["exact arithmetic; the machine epsilon is a positive number smaller than every other quantity of the problem",
          "Eigen's LLT and triangular solves are exact"]
TU = os.path.join(load.HERE, "tu", "qp.cpp")
OPTIMAL, REDUNDANT, MAXITER = 0, 4, 3
FN = "tsid::solvers::EiquadprogFast::solve_quadprog"


# ---------------------------------------------------------------- reference: the reduced problem, by enumeration
def gauss(M, b):
    n = len(M)
    A = [list(M[i]) + [b[i]] for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(A[r][c]))
        if abs(A[p][c]) < 1e-9:
            return None
        A[c], A[p] = A[p], A[c]
        for r in range(n):
            if r != c:
                f = A[r][c] / A[c][c]
                A[r] = [x - f * y for x, y in zip(A[r], A[c])]
    x = [A[i][n] / A[i][i] for i in range(n)]
    return [0 if abs(v) < 1e-12 else v for v in x]


def dotn(a, b):
    return sum(x * y for x, y in zip(a, b))


def reduced(n, eq, iq):
    """min |y|^2/2, v.y + b = 0 (eq), v.y + b >= 0 (iq) -> point, 'infeasible', 'dependent' or None when too close to call"""
    unitary = lambda cs: [(tuple(x / z for x in v), b / z) for v, b in cs for z in [math.sqrt(dotn(v, v))]]
    eq, iq = unitary(eq), unitary(iq)
    if eq and gauss([[dotn(v, w) for w, _ in eq] for v, _ in eq], [0] * len(eq)) is None:
        return "dependent"
    if len(eq) > n:
        return "dependent"
    near = False
    for k in range(0, n - len(eq) + 1):
        for s in itertools.combinations(range(len(iq)), k):
            act = eq + [iq[i] for i in s]
            if act:
                lam = gauss([[dotn(v, w) for w, _ in act] for v, _ in act], [-b for _, b in act])
                if lam is None:
                    continue
            else:
                lam = []
            y = [sum(l * v[j] for l, (v, _) in zip(lam, act)) for j in range(n)]
            y = [0 if abs(v) < 1e-12 else v for v in y]
            li = lam[len(eq):]
            sl = [dotn(v, y) + b for i, (v, b) in enumerate(iq) if i not in s]
            if all(l >= -1e-9 for l in li) and all(x >= -1e-9 for x in sl):
                return y
    return "infeasible"


# ---------------------------------------------------------------- symbolic problem
class Prob:
    def __init__(self, n, eq, iq, tag="", tiny=(), diag=False, unit=None):
        self.n, self.eq, self.iq = n, eq, iq
        self.tiny = tiny      # inequalities whose normal is of the order of the machine epsilon, as is the cost
        eps = self.eps = P.sym("eps", pos=True) if unit is None else 2. ** -52
        k = eps if tiny else 1
        L = self.L = [[P.mul(k, P.sym("l%s%d%d" % (tag, i, j), pos=i == j)) if (j == i if diag else j <= i) else 0 for j in range(n)] for i in range(n)]
        self.c = [P.sym("c%s%d" % (tag, i)) for i in range(n)]
        self.a = P.sym("a" + tag, pos=True)
        if unit is not None:
            L = self.L = [[(1. + i) * k if i == j else 0. for j in range(n)] for i in range(n)]
            self.c, self.a = [float(i - 1) for i in range(n)], unit
        self.H = [[O.dot(L[i], L[j]) for j in range(n)] for i in range(n)]
        self.g = [P.neg(O.dot(self.H[i], self.c)) for i in range(n)]
        self.Hm = Mat(n, n, [x for r in self.H for x in r])
        self.gm = Mat(n, 1, self.g)
        self.CE, self.ce = self.rows(eq)
        self.CI, self.ci = self.rows(iq)

    def normal(self, v):
        return [O.dot(r, v) for r in self.L]

    def rows(self, cs):
        d, b = [], []
        for i, (v, s) in enumerate(cs):
            m = self.normal(v)
            if cs is self.iq and i in self.tiny:
                m = [P.mul(x, P.mul(self.eps, 0.25)) for x in m]
            d += m
            b.append(P.sub(P.scale(self.a, s) if s else 0, O.dot(m, self.c)))
        return Mat(len(cs), self.n, d), Mat(len(cs), 1, b)

    def back(self, y):
        """c + a L^-T y"""
        n, L = self.n, self.L
        x = [0] * n
        for i in range(n - 1, -1, -1):
            s = y[i]
            for j in range(i + 1, n):
                s = P.sub(s, P.mul(L[j][i], x[j]))
            x[i] = P.div(s, L[i][i])
        return [P.add(self.c[i], P.mul(self.a, x[i])) for i in range(n)]

    def inverse(self):
        """L^-T"""
        cols = []
        for k in range(self.n):
            e = [1 if i == k else 0 for i in range(self.n)]
            b = self.back(e)
            cols.append([P.div(P.sub(b[i], self.c[i]), self.a) for i in range(self.n)])
        return Mat(self.n, self.n, [cols[j][i] for i in range(self.n) for j in range(self.n)])

    def args(self, e):
        return [e.new(m) for m in (self.Hm, self.gm, self.CE, self.ce, self.CI, self.ci)]


def start(eng):
    """the machine epsilon is an infinitesimal"""
    eng.eps = P.sym("eps", pos=True)
    (m, _), = eng.eps.t.items()
    P.EPS.append(m[0][0])
    P.CAP[:] = [300]


def go(ck, fname, np, mk, what):
    r = com.Run(ck, what)

    def args(e):
        start(e)
        return mk(e)
    r.go("verif::" + fname, np, args, prog=program([TU]))
    return r


def where(r):
    for u in r.eng.visited:
        f = r.eng.prog.funcs[u]
        if f["n"].endswith(("::solve_quadprog", "::solve_quadprog_sparse")):
            return "%s:%d" % (com.rel(f["file"]), f["l"])
    return r.where()


def name(n, eq, iq):
    return "%d variables, equalities %s, inequalities %s" % (n, eq, iq)


def known(r, **vals):
    for k, v in vals.items():
        if not isinstance(v, int):
            raise Abort("%s: the %s depends on a comparison the analysis cannot decide: %s" % (r.name, k, str(v)[:200]))


def judge(ck, r, p, key, limit=None):
    """the result of a solve against the reduced problem"""
    w = where(r)
    o = r.eng.pick(r.res)
    f = {k: r.eng.pick(v) for k, v in o.f.items()}
    want = reduced(p.n, p.eq, p.iq)
    st = f["status"]
    its = f["iterations"]
    known(r, status=st, iterations=its)
    ck.require(its <= (1000 if limit is None else max(limit, 1)), key + "/iterations", w, "%s: %s iterations" % (r.name, its))
    if want == "dependent":
        ck.require(st == REDUNDANT, key + "/redundant", w, "%s: status %d for linearly dependent equalities" % (r.name, st))
        return
    if want == "infeasible":
        ck.require(st not in (OPTIMAL, REDUNDANT), key + "/infeasible", w, "%s: status %d for an infeasible problem" % (r.name, st))
        return
    if limit is not None and st == MAXITER:
        return
    if not ck.require(st == OPTIMAL, key + "/optimal", w, "%s: status %d for a feasible problem" % (r.name, st)):
        return
    x = p.back(want)
    com.same_vec(ck, key + "/x", w, f["x"], x, "%s: returned point" % r.name)
    # f(x) = a^2 |y|^2 / 2 - c' H c / 2
    cost = P.sub(P.mul(P.mul(p.a, p.a), 0.5 * dotn(want, want)), P.scale(O.dot(p.c, [O.dot(h, p.c) for h in p.H]), 0.5))
    com.same(ck, key + "/cost", w, f["cost"], cost, "%s: returned cost" % r.name)
    q, A, u = f["active"], f["A"], f["u"]
    ne = len(p.eq)
    known(r, active=q)
    if not ck.require(ne <= q <= p.n, key + "/active", w, "%s: active set of size %s" % (r.name, q)):
        return
    ids = [A.d[k] for k in range(q)]
    ok = ids[:ne] == [-k - 1 for k in range(ne)] and all(isinstance(i, int) and 0 <= i < len(p.iq) for i in ids[ne:]) and len(set(ids)) == q
    if not ck.require(ok, key + "/active", w, "%s: active set %s" % (r.name, ids)):
        return
    act = list(p.eq) + [p.iq[i] for i in ids[ne:]]
    for (v, b), i in zip(act, ids):
        ck.require(abs(dotn(v, want) + b) < 1e-7 * max(abs(b), math.sqrt(dotn(v, v))), key + "/active", w, "%s: constraint %d is reported active but is not met with equality" % (r.name, i))
    # multipliers: H x + g = sum of the active normals, that is a y = sum u_k v_k
    for j in range(p.n):
        s = 0
        for k, (v, b) in enumerate(act):
            s = P.add(s, P.mul(u.d[k] if k < len(u.d) else Top("missing multiplier"), v[j]))
        com.same(ck, key + "/multipliers", w, s, P.scale(p.a, want[j]) if abs(want[j]) > 1e-12 else 0, "%s: stationarity of the multipliers, coordinate %d" % (r.name, j))
    for k in range(ne, q):
        ck.require(P.nonneg(u.d[k]) or P.equal(u.d[k], 0), key + "/multipliers", w, "%s: multiplier %d is negative: %s" % (r.name, k, P.pstr(u.d[k]) if isinstance(u.d[k], P.Poly) else u.d[k]))


def solve(ck, it):
    _, n, eq, iq = it
    p = Prob(n, list(eq), list(iq))
    r = go(ck, "qp_run", 7, lambda e: p.args(e) + [-1], name(n, eq, iq))
    if clean(ck, r, "solve"):
        judge(ck, r, p, "solve")


def sparse(ck, it):
    _, n, eq, iq, lim = it[:5]
    p = Prob(n, list(eq), list(iq), diag=len(it) > 5)
    r = go(ck, "qp_sparse", 7, lambda e: p.args(e) + [lim], name(n, eq, iq) + ", sparse cost" + (", at most %d iterations" % lim if lim >= 0 else ""))
    if clean(ck, r, "sparse"):
        judge(ck, r, p, "sparse", lim if lim >= 0 else None)


def degenerate(ck, it):
    """a constraint that cannot be added to the factorisation: no status but 'optimal' with every constraint satisfied, or a failure"""
    _, n, eq, iq, tiny, fn = it[:6]
    unit = it[6] if len(it) > 6 else None
    box = {}

    def mk(e):
        p = box["p"] = Prob(n, list(eq), list(iq), tiny=tiny, unit=unit)
        if unit is not None:
            e.eps = 2. ** -52
        return p.args(e) + [-1]
    what = name(n, eq, iq) + ", negligible normals %s%s" % (tiny, ", sparse cost" if fn == "qp_sparse" else "")
    if unit is None:
        r = go(ck, fn, 7, mk, what)
    else:
        r = com.Run(ck, "%s, distances of the order of %g" % (what, unit))
        r.go("verif::" + fn, 7, mk, prog=program([TU]))
    if not clean(ck, r, "degenerate"):
        return
    w, p = where(r), box["p"]
    f = {k: r.eng.pick(v) for k, v in r.eng.pick(r.res).f.items()}
    st = f["status"]
    known(r, status=st, iterations=f["iterations"])
    ck.require(f["iterations"] <= 1000, "degenerate/iterations", w, "%s: %s iterations" % (r.name, f["iterations"]))
    if st == OPTIMAL:
        for i in range(len(iq)):
            s = P.add(O.dot([p.CI.d[i * n + j] for j in range(n)], f["x"].d), p.ci.d[i])
            ck.require(P.isnum(s) and s >= (0 if unit is None else -1e-9 * unit) or P.sign(s) == 1 or P.nonneg(s), "degenerate/violated", w, "%s: 'optimal' with constraint %d violated: slack %s" % (r.name, i, P.pstr(s) if isinstance(s, P.Poly) else s))


def near(ck, it):
    """violations that are small, but no rounding error: numerical data, the machine epsilon of doubles"""
    _, n, eq, iq, unit, fn = it

    p = Prob(n, list(eq), list(iq), unit=unit)

    def mk(e):
        e.eps = 2. ** -52
        return [e.new(m) for m in (p.Hm, p.gm, p.CE, p.ce, p.CI, p.ci)] + [-1]
    r = com.Run(ck, name(n, eq, iq) + ", distances of the order of %g%s" % (unit, ", sparse cost" if fn == "qp_sparse" else ""))
    r.go("verif::" + fn, 7, mk, prog=program([TU]))
    if not clean(ck, r, "near"):
        return
    w = where(r)
    f = {k: r.eng.pick(v) for k, v in r.eng.pick(r.res).f.items()}
    known(r, status=f["status"], iterations=f["iterations"])
    want = reduced(n, list(eq), list(iq))
    if not isinstance(want, list):
        return
    if ck.require(f["status"] == OPTIMAL, "near/optimal", w, "%s: status %d for a feasible problem" % (r.name, f["status"])):
        x = p.back(want)
        for j in range(n):
            ck.require(abs(f["x"].d[j] - x[j]) <= 1e-4 * unit, "near/x", w, "%s: coordinate %d of the returned point is %.12g instead of %.12g" % (r.name, j, f["x"].d[j], x[j]))


def limited(ck, it):
    _, n, eq, iq, lim = it
    p = Prob(n, list(eq), list(iq))
    r = go(ck, "qp_run", 7, lambda e: p.args(e) + [lim], name(n, eq, iq) + ", at most %d iterations" % lim)
    if clean(ck, r, "limit"):
        judge(ck, r, p, "limit", lim)


def again(ck, it):
    """the second problem is solved within the very iterations a new object needs"""
    _, first, second, sp = it
    p = Prob(second[0], list(second[1]), list(second[2]))
    r = go(ck, "qp_sparse" if sp & 2 else "qp_run", 7, lambda e: p.args(e) + [-1], name(*second))
    if not clean(ck, r, "again"):
        return
    its = r.eng.pick(r.eng.pick(r.res).f["iterations"])
    known(r, iterations=its)
    q, p = Prob(first[0], list(first[1]), list(first[2]), "q"), Prob(second[0], list(second[1]), list(second[2]))
    r = go(ck, "qp_again", 14, lambda e: q.args(e) + p.args(e) + [its + 1, sp], "%s after %s%s, at most %d iterations" % (name(*second), name(*first), ("", ", sparse first", ", sparse last", ", both sparse")[sp], its + 1))
    if clean(ck, r, "again"):
        judge(ck, r, p, "again")


def provided(ck, it):
    _, n, eq, iq = it
    p = Prob(n, list(eq), list(iq))
    r = go(ck, "qp_inverse", 7, lambda e: [e.new(p.inverse())] + p.args(e), name(n, eq, iq) + ", inverse factor provided")
    if clean(ck, r, "inverse"):
        judge(ck, r, p, "inverse")


def setmax(ck, it):
    k = it[1]
    box = {}

    def mk(e):
        box["ok"] = e.new(False)
        return [k, box["ok"]]
    r = go(ck, "qp_max", 2, mk, "iteration limit %d" % k)
    if clean(ck, r, "setmax"):
        ok = r.eng.rv(box["ok"])
        w = r.where()
        for u in r.eng.visited:
            f = r.eng.prog.funcs[u]
            if f["n"].endswith("::setMaxIter"):
                w = "%s:%d" % (com.rel(f["file"]), f["l"])
        ck.require(ok is (k >= 0) and r.eng.pick(r.res) == (k if k >= 0 else 1000), "setmax", w, "limit %d: accepted=%s, limit in force %s" % (k, ok, r.eng.pick(r.res)))


def one(ck, it):
    globals()[it[0]](ck, it)


def margin(n, eq, iq):
    """False when rounding could decide the status of the reduced problem"""
    return reduced(n, eq, [(v, b + 1e-4) for v, b in iq]) .__class__ is reduced(n, eq, [(v, b - 1e-4) for v, b in iq]).__class__


def families(seed, count, n, ne, ni):
    """constraints with small integer coordinates"""
    rnd = random.Random(1000 * seed + 100 * n + 10 * ne + ni)
    out = []
    while len(out) < count:
        def v():
            while True:
                x = tuple(rnd.choice((-3, -2, -1, 0, 1, 2, 3, 4)) for _ in range(n))
                if any(x):
                    return x
        eq = tuple((v(), rnd.choice((-3, -1, 0, 1, 2, 5))) for _ in range(ne))
        iq = tuple((v(), rnd.choice((-9, -7, -5, -4, -3, -2, -1, 0, 1, 3, 6))) for _ in range(ni))
        if margin(n, list(eq), list(iq)):
            out.append((n, eq, iq))
    return out


def scaled(cs):
    """the same sets, each constraint written in a unit of its own"""
    F = (1024., 1, 1 / 1024., 1, 2 ** 14, 1 / 4096.)
    out = []
    for k, (n, eq, iq) in enumerate(cs):
        sc = lambda c, o: tuple((tuple(F[(i + o) % 6] * x for x in v), F[(i + o) % 6] * b) for i, (v, b) in enumerate(c))
        e, q = sc(eq, k + 3), sc(iq, k)
        y, z = reduced(n, list(eq), list(iq)), reduced(n, list(e), list(q))
        if y == z or isinstance(y, list) and isinstance(z, list) and max(abs(a - b) for a, b in zip(y, z)) < 1e-9:
            out.append((n, e, q))
    return out


CURATED = [
    (1, (), ()), (1, (), (((1,), -2),)), (1, (), (((1,), 3),)), (1, (), (((1,), -2), ((1,), -5))), (1, (), (((1,), -5), ((1,), -2))), (1, (), (((1,), -2), ((-1,), 1))),
    (1, (((2,), -3),), ()), (1, (((2,), -3),), (((1,), 0),)), (1, (((2,), -3),), (((-1,), 0),)), (1, (((1,), 1), ((2,), 2)), ()),
    (2, (), (((1, 0), -1), ((0, 1), -1))), (2, (), (((3, 4), -5), ((4, 3), -5))), (2, (), (((3, 4), -5), ((3, 4), -5))), (2, (), (((3, 4), -5), ((6, 8), -10))),
    (2, (), (((1, 0), -1), ((1, 1), -4))), (2, (), (((1, 0), -4), ((1, 3), -5), ((0, 1), -1))), (2, (), (((1, 0), -1), ((-1, 0), -1))), (2, (), (((1, 1), -2), ((-1, 0), 0), ((0, -1), 0))),
    (2, (((1, 1), -1),), (((1, 0), -2),)), (2, (((1, 1), -1), ((1, -1), 0)), ()), (2, (((1, 1), -1), ((2, 2), -2)), ()), (2, (((1, 1), -1), ((2, 2), -3)), ()), (2, (((0, 1), 0),), (((0, 1), -1),)),
    (2, (((1, 0), -1), ((0, 1), -1)), (((1, 1), -1),)), (2, (((1, 0), -1), ((0, 1), -1)), (((1, 1), -5),)),
    (3, (), (((1, 0, 0), -1), ((0, 1, 0), -1), ((0, 0, 1), -1))), (3, (), (((1, 0, 0), -1), ((1, 1, 0), -3), ((1, 1, 1), -6))), (3, (), (((1, 2, 2), -9), ((2, 1, -2), -3), ((2, -2, 1), 0))),
    (3, (((1, 1, 1), -3),), (((1, 0, 0), -2), ((0, 1, 0), -2))), (3, (((1, 1, 1), -3), ((1, -1, 0), 0)), (((0, 0, 1), -4),)),
    (3, (), (((1, 0, 0), -3), ((1, 1, 0), -3.5), ((1, 0, 1), -3.25), ((-1, 1, 1), 1))),
]


DEGENERATE = [
    (1, (), (((1,), -2),), (0,)), (1, (), (((1,), -2), ((1,), -1)), (0, 1)), (1, (), (((1,), -2), ((1,), -3)), (0,)), (1, (), (((1,), -3), ((1,), -2)), (0,)),
    (2, (), (((1, 0), -2), ((0, 1), -1)), (1,)), (2, (), (((1, 0), -2), ((0, 1), -5)), (1,)), (2, (), (((1, 0), -2), ((1, 1), -5), ((0, 1), 4)), (1,)), (2, (((1, 1), 0),), (((1, 0), -2),), (0,)),
    (2, (), (((1, 0), -2), ((0, 1), -5), ((2, 1), -4)), (0, 1, 2)), (3, (), (((1, 0, 0), -2), ((0, 1, 0), -5), ((0, 1, 1), -3)), (1,)), (3, (), (((1, 0, 0), -6), ((0, 1, 0), -5), ((0, 1, 1), -3)), (1, 2)),
    (1, (((1,), -2),), (((1,), -3),), (0,)), (1, (), (((1,), -2), ((-1,), -3)), (0, 1)), (2, (), (((0, 1), -2), ((1, 1), -7), ((1, 0), -4)), (2,)),
]


def run(ck):
    ck.units = len(program([TU]).tus)
    out = [("solve",) + c for c in CURATED]
    k = 60 if ck.thorough else 6
    fam = []
    for n, ne, ni, cnt in ((1, 0, 3, 4), (1, 1, 2, 4), (2, 0, 2, 6), (2, 0, 3, 10), (2, 0, 5, 10), (2, 1, 2, 8), (2, 2, 2, 4), (3, 0, 3, 8), (3, 0, 5, 16), (3, 1, 3, 10), (3, 2, 3, 6), (3, 3, 1, 3), (4, 0, 6, 8), (4, 1, 5, 6), (4, 2, 4, 4)):
        fam += families(1, cnt * k, n, ne, ni)
    out += [("solve",) + c for c in fam]
    for c in CURATED[10:16] + CURATED[25:28]:
        out += [("limited",) + c + (m,) for m in (0, 1, 2, 3)]
    pairs = [(14, 15), (11, 10), (26, 27), (16, 11), (18, 0), (20, 18), (25, 28), (17, 27), (27, 17), (15, 15), (28, 28), (23, 24)]
    out += [("again", CURATED[i], CURATED[j], k) for i, j in pairs for k in range(4)]
    out += [("again", c, fam[(7 * i + 3) % len(fam)], i % 4) for i, c in enumerate(fam[::6])]
    out += [("provided",) + c for c in (CURATED[1], CURATED[11], CURATED[14], CURATED[18], CURATED[27])]
    out += [("setmax", m) for m in (0, 1, 7, 5000, -1, -1000)]
    out += [("degenerate",) + d + (f,) for d in DEGENERATE for f in ("qp_run", "qp_sparse")]
    out += [("degenerate",) + d + (f, m) for d in DEGENERATE for f in ("qp_run", "qp_sparse") for m in (1., 1e-2)]
    # one iteration per constraint: each is the most violated one when all before it are met
    long = [(1, (), tuple(((2. ** -k,), -(k + 1) * 2. ** -k) for k in range(40))), (2, (), tuple(((2. ** -k, 0) if k % 2 else (0, 2. ** -k), -(k + 1) * 2. ** -k) for k in range(44)))]
    out += [("solve",) + c for c in long] + [("sparse",) + c + (-1,) for c in long]
    hard = [c for c in HARD if margin(c[0], list(c[1]), list(c[2]))]
    out += [("solve",) + c for c in hard]
    out += [("near",) + c + (m, f) for c in CURATED + fam[::9] for m in (1e-7, 1e-4, 1.) for f in ("qp_run", "qp_sparse")]
    unit = scaled(hard + fam[::5] + CURATED[10:])
    out += [("solve",) + c for c in unit]
    out += [("sparse",) + c + (-1,) for c in CURATED + fam[::2] + hard]
    out += [("sparse",) + c + (-1, "diagonal") for c in CURATED]
    for c in CURATED[10:16] + CURATED[25:28]:
        out += [("sparse",) + c + (m,) for m in (0, 1, 2, 3)]
    ck.map(one, out, budget=20)
