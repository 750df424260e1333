"""What the library has to compute, written from the definition of the problem
(Bezier boundary conditions, gravito-inertial wrench, friction cone, kinematic
polytopes) and from nothing in the repository."""
import math

import poly as P
from poly import Poly
from scen import *

ADD, SUB, MUL, DIV = P.add, P.sub, P.mul, P.div

STARTS = [INIT_POS, INIT_POS | INIT_VEL, INIT_POS | INIT_VEL | INIT_ACC, INIT_POS | INIT_VEL | INIT_ACC | INIT_JERK]
TWO, THREE, FOUR, FIVE = 256, 512, 1024, 2048

# families of boundary conditions the library documents
COM = {
    "c0_dc0_c1": INIT_POS | INIT_VEL | END_POS,
    "c0_dc0_dc1": INIT_POS | INIT_VEL | END_VEL,
    "c0_dc0_dc1_c1": INIT_POS | INIT_VEL | END_POS | END_VEL,
    "c0_dc0_ddc0": INIT_POS | INIT_VEL | INIT_ACC,
    "c0_dc0_ddc0_c1": INIT_POS | INIT_VEL | INIT_ACC | END_POS,
    "c0_dc0_ddc0_dc1_c1": INIT_POS | INIT_VEL | INIT_ACC | END_POS | END_VEL,
    "c0_dc0_ddc0_ddc1_dc1_c1": INIT_POS | INIT_VEL | INIT_ACC | END_POS | END_VEL | END_ACC,
    "c0_dc0_ddc0_j0_j1_ddc1_dc1_c1": INIT_POS | INIT_VEL | INIT_ACC | INIT_JERK | END_POS | END_VEL | END_ACC | END_JERK,
}
FULL = COM["c0_dc0_ddc0_j0_j1_ddc1_dc1_c1"]
EFF = {"one free point": FULL, "three free points": FULL | THREE, "five free points": FULL | FIVE}


class Spec:
    """boundary conditions selected by a flag set"""

    def __init__(self, flag):
        self.flag = flag
        ini = [n for n, b in (("c0_", INIT_POS), ("dc0_", INIT_VEL), ("ddc0_", INIT_ACC), ("j0_", INIT_JERK)) if flag & b]
        end = [n for n, b in (("c1_", END_POS), ("dc1_", END_VEL), ("ddc1_", END_ACC), ("j1_", END_JERK)) if flag & b]
        self.stop = bool(flag & END_VEL) and not flag & END_POS     # ends at rest at a free position
        if self.stop:
            end = []
        self.ini, self.end = ini, end
        self.nfree = 5 if flag & FIVE else 4 if flag & FOUR else 3 if flag & THREE else 2 if flag & TWO else 1
        self.nmid = 2 if self.stop else self.nfree
        self.npts = len(ini) + self.nmid + len(end)
        self.deg = self.npts - 1

    def vars(self):
        return [[P.sym("X%d" % (3 * j + a)) for a in range(3)] for j in range(self.nfree)]

    def var_list(self):
        return [x for v in self.vars() for x in v]

    def points(self, pd, T):
        """control points; pd: name -> Mat 3x1"""
        n = self.deg
        pts = [None] * self.npts
        for side, names in ((0, self.ini), (1, self.end)):
            diffs = []
            for k, nm in enumerate(names):
                f = DIV(P.powi(T, k), math.perm(n, k))
                diffs.append([MUL(f, x) for x in pd[nm].d])
                p = [0, 0, 0]
                for j in range(k + 1):
                    s = math.comb(k, j) * (1 if side == 0 or j % 2 == 0 else -1)
                    p = [ADD(a, MUL(s, b)) for a, b in zip(p, diffs[j])]
                pts[k if side == 0 else n - k] = p
        vs = self.vars()
        k0 = len(self.ini)
        for j in range(self.nmid):
            pts[k0 + j] = vs[0] if self.stop else vs[j]
        return pts


# ------------------------------------------------------------ Bezier algebra
def derive(pts, T):
    n = len(pts) - 1
    if n == 0:
        return [[0] * len(pts[0])]
    f = DIV(n, T)
    return [[MUL(f, SUB(b, a)) for a, b in zip(pts[i], pts[i + 1])] for i in range(n)]


def evaluate(pts, u):
    n = len(pts) - 1
    v = SUB(1, u)
    out = [0] * len(pts[0])
    for i, p in enumerate(pts):
        w = MUL(MUL(math.comb(n, i), P.powi(u, i)), P.powi(v, n - i))
        out = [ADD(o, MUL(w, x)) for o, x in zip(out, p)]
    return out


def cross(a, b):
    return [SUB(MUL(a[1], b[2]), MUL(a[2], b[1])), SUB(MUL(a[2], b[0]), MUL(a[0], b[2])), SUB(MUL(a[0], b[1]), MUL(a[1], b[0]))]


def product(p, q, f):
    m, n = len(p) - 1, len(q) - 1
    out = []
    for k in range(m + n + 1):
        acc = None
        for i in range(max(0, k - n), min(m, k) + 1):
            w = math.comb(m, i) * math.comb(n, k - i) / math.comb(m + n, k)
            v = [MUL(w, x) for x in f(p[i], q[k - i])]
            acc = v if acc is None else [ADD(a, b) for a, b in zip(acc, v)]
        out.append(acc)
    return out


def elevate(pts, n):
    one = [[1]] * (n - (len(pts) - 1) + 1)
    return product(pts, one, lambda a, b: [MUL(x, b[0]) for x in a])


def restrict(pts, a, b):
    n = len(pts) - 1
    out = []
    for i in range(n + 1):
        cur = pts
        for u in [b] * i + [a] * (n - i):
            v = SUB(1, u)
            cur = [[ADD(MUL(v, x), MUL(u, y)) for x, y in zip(cur[k], cur[k + 1])] for k in range(len(cur) - 1)]
        out.append(cur[0])
    return out


def wrench(pts, T, g):
    """control points of [ddc ; c x (ddc - g)] (degree 2n-2)"""
    dd = derive(derive(pts, T), T)
    n = len(pts) - 1
    acc = [[SUB(x, y) for x, y in zip(p, g)] for p in dd]
    ang = product(pts, acc, cross)
    lin = elevate(dd, 2 * n - 2)
    return [l + a for l, a in zip(lin, ang)]


def wrench_at(pts, T, g, u):
    dd = evaluate(derive(derive(pts, T), T), u)
    c = evaluate(pts, u)
    return dd + cross(c, [SUB(x, y) for x, y in zip(dd, g)])


def dot(a, b):
    s = 0
    for x, y in zip(a, b):
        s = ADD(s, MUL(x, y))
    return s


# ------------------------------------------------------------ rows a.x <= b as polynomials a.x - b
class Row:
    __slots__ = ("p", "what", "loc", "req", "alt")

    def __init__(self, p, what, loc=None, req=True, alt=None):
        self.p, self.what, self.loc, self.req, self.alt = p, what, loc, req, alt


def stability_rows(H, w, g, reduce_h, what, hvec=None):
    """-H (w - [g;0]) <= h - reduce_h ||H_k||, one row per cone row"""
    out = []
    d = [SUB(x, y) for x, y in zip(w, list(g) + [0, 0, 0])]
    for k in range(H.r):
        row = [H.g(k, j) for j in range(6)]
        n2 = 0
        for x in row:
            n2 = ADD(n2, MUL(x, x))
        p = P.neg(dot(row, d))
        if reduce_h is not None:
            p = ADD(p, MUL(reduce_h, P.sqrt(n2)))
        out.append(Row(p, "%s, cone row %d" % (what, k)))
    return out


def kin_rows(K, k, c, what):
    return [Row(SUB(dot([K.g(i, j) for j in range(3)], c), k.d[i]), "%s, kinematic row %d" % (what, i)) for i in range(K.r)]


def acc_rows(dd, bound, what, req=True):
    out = []
    for a in range(3):
        out.append(Row(SUB(dd[a], bound), "%s, acceleration upper bound on axis %s" % (what, "xyz"[a]), req=req))
        out.append(Row(SUB(P.neg(dd[a]), bound), "%s, acceleration lower bound on axis %s" % (what, "xyz"[a]), req=req))
    return out
