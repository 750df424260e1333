"""Solver adapter: what `solve` hands to the QP solver / to the LP library for a
given problem, and what it returns for every outcome of the back end."""
import com
import match as M
import oracle as O
import poly as P
from scen import *

RULE = "problem handed to each back end = the given inequalities, equalities, bounds and objective, nothing else; success exactly when the back end reports an optimum, with its solution and value; other back ends are rejected"
EXPLAIN = "the adapter is analysed for each back end, for problems of several sizes, sparsity patterns and bound patterns with symbolic coefficients, and every status the back end can report; the arguments reaching the back-end calls are compared with the given problem"
FLOOR = 1200
ASSUME = ["solve_quadprog minimises x'Gx/2+g'x s.t. CE x+ce0=0, CI x+ci0>=0 and the GLPK calls mean what its manual says",
          "a bound of magnitude 1e5 or more is the library's documented way to leave a variable unbounded for the LP back end"]

GLP = dict(FR=1, LO=2, UP=3, DB=4, FX=5)
BIG = 1e5


# magnitudes a numerical threshold would confuse with zero, one or infinity
MAGN = [5e-7, -1.0, 3e-9, 0.0, -2e-12, 7e5, 1e-17, -4e-6, 2.5, -1e-3, 8e-31, 3e7, -6e-8, 0.0, 1.0, -9e-200, 4e-10]


def magn(r, c, s):
    return Mat(r, c, [MAGN[(q * 5 + s) % len(MAGN)] for q in range(r * c)])


def numrows(ck, r, key, w, act, exp, what, both=False):
    """numerical rows: each coefficient exact, up to a positive factor of the row"""
    def eq(x, y):
        for s in ((1, -1) if both else (1,)):
            k = next((u / v for u, v in zip(x, y) if v and u), s) * 1.0
            if k * s > 0 and all((u == 0) == (v == 0) and abs(u - k * v) <= 1e-12 * abs(u) for u, v in zip(x, y)):
                return True
        return False
    for n, a, b in (("required %s is not given to the back end" % what, exp, act), ("%s given to the back end is not one of the problem" % what, act, exp)):
        for x in a:
            ck.require(any(eq(x, y) for y in b), key + "/small coefficients", w, "%s: %s: %s" % (r.name, n, x))


def pattern(tag, r, c, k):
    """r x c coefficients, symbolic and non zero where the pattern has an entry"""
    if k == -1:
        return magn(r, c, len(tag) + ord(tag[0]))
    d = []
    for i in range(r):
        for j in range(c):
            z = k and (i * c + j * (k + 1) + i * k) % (k + 2) == 0
            s = P.sym("%s_%d_%d" % (tag, i, j), pos=True)
            d.append(0.0 if z else (P.neg(s) if (i + j) % 2 else s))
    return Mat(r, c, d)


def inputs(m, p, n, k):
    if k == -1:
        return (magn(m, n, 0), magn(m, 1, 2), magn(p, n, 3), magn(p, 1, 7), magn(n, n, 1), magn(n, 1, 4), magn(n, 1, 9))
    return (pattern("A", m, n, k), vec("b", m), pattern("D", p, n, k), vec("d", p),
            mat("Q", n, n), vec("g", n), vec("x0_", n))


def bound_vec(tag, n, kind):
    if kind == "none":
        return Mat(0, 1, [])
    if kind == "sym":
        return vec(tag, n)
    return Mat(n, 1, [float(x) for x in kind])


# ------------------------------------------------------------------ QP back end
def qp(ck, it):
    _, m, p, n, k, lo, hi, status = it
    r = com.Run(ck, "QP back end: %d inequalities, %d equalities, %d variables, bounds %s/%s, outcome %s" % (m, p, n, lo, hi, status))
    A, b, D, d, Q, g, x0 = inputs(m, p, n, k)
    lov, hiv = bound_vec("lo", n, lo), bound_vec("hi", n, hi)
    seen = []

    def hook(eng, e, obj, args):
        v = [eng.rv(a) for a in args]
        seen.append(v)
        xr = eng.lref(args[6]) if not isinstance(args[6], Ref) else args[6]
        eng.store(xr, vec("sol", n))
        return eng.prog.enumval["EIQUADPROG_FAST_" + status]

    def val(eng, e, obj, args):
        return P.sym("value")
    r.go("solvers::solve", 10, lambda e: [A, b, D, d, Q, g, x0, lov, hiv, e.prog.enumval["SOLVER_QUADPROG"]],
         hooks={"solvers::solve": lambda *a: NotImplemented, "tsid::solvers::EiquadprogFast::solve_quadprog": hook,
                "tsid::solvers::EiquadprogFast::getObjValue": val})
    key = "qp"
    if not r.usable(key, single=False):
        return
    w = r.where()
    if not ck.require(len(seen) == 1, key + "/calls", w, "%s: the QP solver is reached %d times" % (r.name, len(seen))):
        return
    H, gg, CE, ce, CI, ci = seen[0][:6]
    if not all(isinstance(x, Mat) for x in (H, gg, CE, ce, CI, ci)):
        raise Abort("%s: what is given to the solver depends on the coefficients" % r.name)
    com.same_vec(ck, key + "/objective", w, [x for x in H.d], list(Q.d), "%s: Hessian given to the solver" % r.name)
    com.same_vec(ck, key + "/objective", w, gg, g.d, "%s: gradient given to the solver" % r.name)
    xs = [P.sym("X%d" % i) for i in range(n)]
    if not ck.require(CE.r == ce.r and CI.r == ci.r and (CE.r == 0 or CE.c == n) and (CI.r == 0 or CI.c == n), key + "/shape", w,
                      "%s: CE %dx%d, ce0 %d, CI %dx%d, ci0 %d" % (r.name, CE.r, CE.c, ce.r, CI.r, CI.c, ci.r)):
        return
    if it[4] == -1:
        num = lambda M_, v, s: [[s * M_.g(i, j) for j in range(n)] + [v.d[i]] for i in range(M_.r)]
        numrows(ck, r, key, w, [[-x for x in y] for y in num(CI, ci, 1)], num(A, b, 1) and [[u for u in x[:-1]] + [-x[-1]] for x in num(A, b, 1)], "inequality")
        numrows(ck, r, key, w, num(CE, ce, 1), [x[:-1] + [-x[-1]] for x in num(D, d, 1)], "equality", True)
        return
    exp = [O.Row(P.sub(O.dot([A.g(i, j) for j in range(n)], xs), b.d[i]), "inequality %d" % i) for i in range(m)]
    if lov.r:
        exp += [O.Row(P.sub(lov.d[i], xs[i]), "lower bound of variable %d" % i) for i in range(n)]
    if hiv.r:
        exp += [O.Row(P.sub(xs[i], hiv.d[i]), "upper bound of variable %d" % i) for i in range(n)]
    act = [P.neg(P.add(ci.d[i], O.dot([CI.g(i, j) for j in range(n)], xs))) for i in range(CI.r)]
    com.compare_rows(ck, r, key, act, [CI.l[i * CI.c] or None for i in range(CI.r)], exp)
    eqs(ck, r, key, w, [P.add(ce.d[i], O.dot([CE.g(i, j) for j in range(n)], xs)) for i in range(CE.r)],
        [P.sub(O.dot([D.g(i, j) for j in range(n)], xs), d.d[i]) for i in range(p)])
    result(ck, r, key, w, status == "OPTIMAL", [P.sym("sol%d" % i) for i in range(n)])


def eqs(ck, r, key, w, act, exp):
    """equalities, up to any non zero factor and order; solvers want them without repetition"""
    ck.require(len(act) == len(exp), key + "/equalities", w, "%s: %d equality rows instead of %d" % (r.name, len(act), len(exp)))
    for what, xs, ys in (("required equality %d is not given to the back end", exp, act), ("equality row %d is not one of the problem", act, exp)):
        for i, x in enumerate(xs):
            ck.require(any(M.prop(x, y) or M.prop(x, P.neg(y)) for y in ys), key + "/equalities", w, "%s: %s: %s = 0" % (r.name, what % i, P.pstr(x, 160)))


def result(ck, r, key, w, ok, sol):
    f = r.eng.pick(r.res).f
    got = f["success_"]
    if not isinstance(got, (bool, int)):
        raise Abort("undecided success flag %r" % (got,))
    ck.require(bool(got) == ok, key + "/success", w, "%s: success flag is %s" % (r.name, bool(got)))
    if ok:
        com.same(ck, key + "/cost", w, f["cost_"], P.sym("value"), "%s: reported cost" % r.name)
        com.same_vec(ck, key + "/solution", w, f["x"], sol, "%s: reported solution" % r.name)
    ck.ok()


# ------------------------------------------------------------------ LP back end
class Lp:
    """abstract GLPK problem object"""

    def __init__(self, n, status):
        self.n, self.status = n, status
        self.alive = 0
        self.rows, self.cols, self.obj = {}, {}, {}
        self.nr = self.nc = 0
        self.dir = 1
        self.mat = None
        self.solved = False
        self.bad = []

    def hooks(self):
        out = {}
        for n in dir(self):
            if n.startswith("glp_"):
                out[n] = self.wrap(n)
        return out

    def wrap(self, n):
        f = getattr(self, n)

        def h(eng, e, obj, args):
            if n in ("glp_free_env", "glp_term_out", "glp_init_smcp", "glp_init_iptcp"):
                return 0 if n != "glp_init_smcp" else VOID
            if eng.path:
                raise Abort("%s is called under an undecided condition" % n)
            if n != "glp_create_prob" and not self.alive:
                self.bad.append((eng.here(), "%s is called on a problem that does not exist" % n))
            return f(eng, *args[1:] if n != "glp_create_prob" else args)
        return h

    def glp_free_env(self, eng, *a):
        return 0

    def glp_term_out(self, eng, *a):
        return 0

    def glp_init_smcp(self, eng, *a):
        return VOID

    def glp_init_iptcp(self, eng, *a):
        return VOID

    def glp_create_prob(self, eng):
        self.alive += 1
        self.total = getattr(self, "total", 0) + 1
        return Ptr(eng.new(Obj("glp_prob", {})))

    def glp_set_prob_name(self, eng, *a):
        return VOID

    def glp_set_obj_name(self, eng, *a):
        return VOID

    def glp_set_row_name(self, eng, *a):
        return VOID

    def glp_set_col_name(self, eng, *a):
        return VOID

    def glp_set_obj_dir(self, eng, d):
        self.dir = eng.rv(d)
        return VOID

    def _add(self, eng, k, n):
        n = eng.rv(n)
        if n < 1:
            self.bad.append((eng.here(), "glp_add_%s is called with %s: the library terminates the process" % (k, n)))
            n = 0
        return n

    def glp_add_rows(self, eng, n):
        n = self._add(eng, "rows", n)
        self.nr += n
        return self.nr - n + 1

    def glp_add_cols(self, eng, n):
        n = self._add(eng, "cols", n)
        for j in range(n):
            self.cols[self.nc + j + 1] = (GLP["FX"], 0.0, 0.0)
        self.nc += n
        return self.nc - n + 1

    def _idx(self, eng, what, i, n, lo=1):
        if not isinstance(i, int):
            raise Abort("%s number %r is not a constant" % (what, i))
        if not lo <= i <= n:
            self.bad.append((eng.here(), "%s number %d out of range %d..%d: the library terminates the process" % (what, i, lo, n)))
            return False
        return True

    def glp_set_row_bnds(self, eng, i, t, lo, up):
        i, t, lo, up = [eng.rv(x) for x in (i, t, lo, up)]
        if self._idx(eng, "row", i, self.nr):
            self.rows[i] = (t, lo, up)
        return VOID

    def glp_set_col_bnds(self, eng, i, t, lo, up):
        i, t, lo, up = [eng.rv(x) for x in (i, t, lo, up)]
        if self._idx(eng, "column", i, self.nc):
            self.cols[i] = (t, lo, up)
        return VOID

    def glp_set_obj_coef(self, eng, j, v):
        j, v = eng.rv(j), eng.rv(v)
        if self._idx(eng, "column", j, self.nc, 0):
            self.obj[j] = v
        return VOID

    def array(self, eng, p, k):
        """k-th element (1 based) of the array argument"""
        p = eng.rv(p)
        if isinstance(p, Ptr) and p.ref is not None:
            return eng.rv(eng.deref(eng.ptradd(p, k)))
        raise Abort("array argument %r" % (p,))

    def glp_load_matrix(self, eng, ne, ia, ja, ar):
        ne = eng.rv(ne)
        if not isinstance(ne, int):
            raise Abort("number of matrix entries %r is not a constant" % (ne,))
        self.mat = {}
        for k in range(1, ne + 1):
            i, j, v = [self.array(eng, x, k) for x in (ia, ja, ar)]
            if not (self._idx(eng, "row", i, self.nr) and self._idx(eng, "column", j, self.nc)):
                continue
            if (i, j) in self.mat:
                self.bad.append((eng.here(), "two entries for coefficient (%d,%d): the library terminates the process" % (i, j)))
            self.mat[(i, j)] = v
        return VOID

    def glp_set_mat_row(self, eng, i, ln, ind, val):
        i, ln = eng.rv(i), eng.rv(ln)
        if self.mat is None:
            self.mat = {}
        for k in [k for k in self.mat if k[0] == i]:
            del self.mat[k]
        for k in range(1, ln + 1):
            j, v = self.array(eng, ind, k), self.array(eng, val, k)
            if self._idx(eng, "row", i, self.nr) and self._idx(eng, "column", j, self.nc):
                self.mat[(i, j)] = v
        return VOID

    def glp_simplex(self, eng, *a):
        self.solved = True
        self.final = (dict(self.rows), dict(self.cols), dict(self.obj), dict(self.mat or {}), self.nr, self.nc, self.dir)
        return 0

    glp_exact = glp_simplex

    def _sol(self, eng, what):
        if not self.solved:
            self.bad.append((eng.here(), "%s is read before the problem is solved" % what))

    def glp_get_status(self, eng):
        self._sol(eng, "the status")
        return dict(UNDEF=1, FEAS=2, INFEAS=3, NOFEAS=4, OPT=5, UNBND=6)[self.status]

    def glp_get_obj_val(self, eng):
        self._sol(eng, "the value")
        return P.sym("value")

    def glp_get_col_prim(self, eng, j):
        self._sol(eng, "the solution")
        j = eng.rv(j)
        if self._idx(eng, "column", j, self.nc):
            return P.sym("sol%d" % (j - 1))
        return Top("column out of range")

    def glp_delete_prob(self, eng):
        self.alive -= 1
        return VOID

    glp_get_num_rows = lambda self, eng: self.nr
    glp_get_num_cols = lambda self, eng: self.nc


def lp(ck, it):
    _, m, p, n, k, lo, hi, status = it
    r = com.Run(ck, "LP back end: %d inequalities, %d equalities, %d variables, pattern %d, bounds %s/%s, outcome %s" % (m, p, n, k, lo, hi, status))
    A, b, D, d, Q, g, x0 = inputs(m, p, n, k)
    lov, hiv = bound_vec("lo", n, lo), bound_vec("hi", n, hi)
    L = Lp(n, status)
    hk = dict(L.hooks())
    hk["solvers::solve"] = lambda *a: NotImplemented
    r.go("solvers::solve", 10, lambda e: [A, b, D, d, Q, g, x0, lov, hiv, e.prog.enumval["SOLVER_GLPK"]], hooks=hk)
    key = "lp"
    if not r.usable(key, single=False):
        return
    w = r.where()
    for loc, msg in L.bad[:4]:
        ck.require(False, key + "/use", com.rel(loc), "%s: %s" % (r.name, msg))
    if L.bad:
        return
    if not ck.require(L.solved, key + "/calls", w, "%s: the problem is never solved" % r.name):
        return
    ck.require(L.alive == 0, key + "/lifetime", w, "%s: %d problem objects are not deleted" % (r.name, L.alive))
    rows, cols, obj, mt, nr, nc, dr = L.final
    ck.require(dr == 1, key + "/direction", w, "%s: the objective is not minimised" % r.name)
    ck.require(nc == n, key + "/variables", w, "%s: %d variables instead of %d" % (r.name, nc, n))
    xs = [P.sym("X%d" % i) for i in range(n)]
    for j in range(n + 1):
        com.same(ck, key + "/objective", w, obj.get(j, 0), g.d[j - 1] if j else 0, "%s: objective coefficient %d" % (r.name, j))
    if it[4] == -1:
        act, eq = [], []
        for i in range(1, nr + 1):
            t, l, u = rows.get(i, (GLP["FR"], 0, 0))
            q = [mt.get((i, j), 0) for j in range(1, n + 1)]
            if t in (GLP["UP"], GLP["DB"]):
                act.append(q + [-u])
            if t in (GLP["LO"], GLP["DB"]):
                act.append([-x for x in q] + [l])
            if t == GLP["FX"]:
                eq.append(q + [-l])
        numrows(ck, r, key, w, act, [[A.g(i, j) for j in range(n)] + [-b.d[i]] for i in range(m)], "inequality")
        numrows(ck, r, key, w, eq, [[D.g(i, j) for j in range(n)] + [-d.d[i]] for i in range(p)], "equality", True)
        return
    act, eq = [], []
    for i in range(1, nr + 1):
        t, l, u = rows.get(i, (GLP["FR"], 0, 0))
        q = 0
        for j in range(1, n + 1):
            q = P.add(q, P.mul(mt.get((i, j), 0), xs[j - 1]))
        if t in (GLP["UP"], GLP["DB"]):
            act.append(P.sub(q, u))
        if t in (GLP["LO"], GLP["DB"]):
            act.append(P.sub(l, q))
        if t == GLP["FX"]:
            eq.append(P.sub(q, l))
    exp = [O.Row(P.sub(O.dot([A.g(i, j) for j in range(n)], xs), b.d[i]), "inequality %d" % i) for i in range(m)]
    com.compare_rows(ck, r, key, act, [None] * len(act), exp)
    eqs(ck, r, key, w, eq, [P.sub(O.dot([D.g(i, j) for j in range(n)], xs), d.d[i]) for i in range(p)])
    for j in range(n):
        t, l, u = cols[j + 1]
        el = l if t in (GLP["LO"], GLP["DB"], GLP["FX"]) else None
        eu = u if t in (GLP["UP"], GLP["DB"]) else l if t == GLP["FX"] else None
        wl = lov.d[j] if lov.r and lov.d[j] > -BIG else None
        wu = hiv.d[j] if hiv.r and hiv.d[j] < BIG else None
        ck.require(el == wl and eu == wu, key + "/bounds", w, "%s: variable %d is limited to %s..%s instead of %s..%s" % (r.name, j, el, eu, wl, wu))
        if t == GLP["DB"]:
            ck.require(l != u, key + "/bounds", w, "%s: variable %d has equal bounds but the type of a range: the library refuses it" % (r.name, j))
    result(ck, r, key, w, status == "OPT", [P.sym("sol%d" % i) for i in range(n)])


def other(ck, it):
    _, v = it
    r = com.Run(ck, "solver number %d" % v)
    A, b, D, d, Q, g, x0 = inputs(2, 1, 3, 0)
    e0 = Mat(0, 1, [])
    hit = []
    L = Lp(3, "OPT")
    hk = {"solvers::solve": lambda *a: NotImplemented,
          "tsid::solvers::EiquadprogFast::solve_quadprog": lambda *a: hit.append("QP") or 0}
    r.go("solvers::solve", 10, lambda e: [A, b, D, d, Q, g, x0, e0, e0, v], hooks=hk)
    ck.require(r.throw is not None and not hit, "unknown solver", r.where(), "solver number %d is accepted instead of rejected" % v)


def one(ck, it):
    {"qp": qp, "lp": lp, "other": other}[it[0]](ck, it)


LOHI = [("none", "none"), ((-2, -1e6, 0), (3, 4, 1e6)), ((-1e6, 0.5, -1e5), (1e6, 0.5, 1e5)), ((-3, 2, -1e5), "none"), ("none", (0, 1e5, -7)),
        ((1, -4, 0), (1 + 1e-7, -4 + 1e-9, 1e-12)), ((0, 0, 0), (0, 0, 0)), ((-1e5, -1e5, -1e5), (1e5, 1e5, 1e5)), ((-99999, 0, -99999.5), (99999, 5, 99999.5)), ((-1e-9, -7e4, 2), (1e-9, 7e4, 3))]
# bounds of the QP back end, as numbers
NUMB = [((0, 0, 0), (0, 0, 0)), ((0, 0, 0), (5, 6, 7)), ((-5, -6, -7), (0, 0, 0)), ((-2, 3, 0), (4, 3, 1)), ((-1, -1, -1), (-1, -1, -1)), ((0, 0, 0), "none"), ("none", (0, 0, 0)),
        ((1, 2, 3), (1 + 1e-7, 2 + 1e-10, 3)), ((-9e4, -7, 1e-9), (9e4, 7e3, 2e-9)), ((4, -2, 3), (1, 2, 5)), ((-1e-7, -2e-9, 0), (1e-8, 3e-13, 1e-7))]


def run(ck):
    ck.units = len(com.program().tus)
    out = []
    sizes = [(4, 0, 3, 0), (3, 2, 3, 0), (0, 0, 3, 0), (5, 1, 4, 1), (2, 3, 7, 2), (12, 0, 3, 1), (0, 2, 3, 0)]
    sizes += [(1, 1, 1, 0), (150, 0, 3, 1), (70, 40, 3, 2)]
    if ck.thorough:
        sizes += [(40, 6, 9, 1), (7, 7, 5, 3), (60, 0, 3, 2), (130, 12, 11, 1), (70, 66, 80, 1)]
    for m, p, n in ((6, 4, 3), (9, 2, 5), (5, 5, 7), (40, 3, 70)):
        out.append(("qp", m, p, n, -1, "none", "none", "OPTIMAL"))
        out.append(("lp", m, p, n, -1, "none", "none", "OPT"))
    for m, p, n, k in sizes:
        for lo, hi in (("none", "none"), ("sym", "none"), ("none", "sym"), ("sym", "sym")):
            out.append(("qp", m, p, n, k, lo, hi, "OPTIMAL"))
        for lo, hi in NUMB:
            f = lambda v: v if v == "none" else tuple(v[i % 3] for i in range(n))
            out.append(("qp", m, p, n, k, f(lo), f(hi), "OPTIMAL"))
        for lo, hi in LOHI:
            f = lambda v: v if v == "none" else tuple(v[i % 3] for i in range(n))
            out.append(("lp", m, p, n, k, f(lo), f(hi), "OPT"))
    for s in ("INFEASIBLE", "UNBOUNDED", "MAX_ITER_REACHED", "REDUNDANT_EQUALITIES"):
        out.append(("qp", 3, 1, 3, 0, "sym", "sym", s))
        out.append(("qp", 3, 0, 3, 0, "none", "none", s))
    for s in ("UNDEF", "FEAS", "INFEAS", "NOFEAS", "UNBND"):
        out.append(("lp", 3, 1, 3, 0, "none", "none", s))
        out.append(("lp", 3, 0, 3, 0, (-2, -1e6, 0), (3, 4, 1e6), s))
    out += [("other", v) for v in (0, 3, 4, 17)]
    ck.map(one, out)
