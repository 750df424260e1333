import com
import load
import oracle as O
import poly as P
from poly import Top
from scen import *
from c15 import same
from c16 import TU, go, anchor, clean

RULE = "affine waypoints: sum, difference and scaling act on the matrix and on the constant, operands of different sizes are rejected; the neutral waypoint is zero; the cross product matrix is that of the cross product; Bernstein polynomials are those of the requested degree; normalising rows keeps every half space (positive factor per row) and reports how many rows are not empty"
EXPLAIN = "each helper is analysed on symbolic operands of several sizes; entries of the results are compared as polynomials with the definition"
FLOOR = 500
ASSUME = ["rows without a zero entry pattern are not zero vectors (generic entries)"]


def wpv(tag, r, c):
    return Obj("bezier_com_traj::waypoint_t", {"first": mat("A" + tag, r, c), "second": vec("b" + tag, r)})


def algebra(ck, it):
    _, op, (r1, c1), (r2, c2) = it
    k = P.sym("k")
    if op in ("wp_mul", "wp_lmul"):
        r = go(ck, op, 2, lambda e: [e.new(wpv("1", r1, c1)), k], "%s %dx%d" % (op, r1, c1))
    else:
        r = go(ck, op, 2, lambda e: [e.new(wpv("1", r1, c1)), e.new(wpv("2", r2, c2))], "%s %dx%d %dx%d" % (op, r1, c1, r2, c2))
    key = "waypoint/" + op
    w = anchor(r, "operator")
    if (r1, c1) != (r2, c2):
        ck.require(r.throw is not None, key + "/sizes", w, "%s: operands of different sizes are accepted" % r.name)
        return
    if not clean(ck, r, key):
        return
    v = r.eng.pick(r.res).f
    a, b = wpv("1", r1, c1).f, wpv("2", r1, c1).f
    f = {"wp_add": lambda x, y: P.add(x, y), "wp_sub": lambda x, y: P.sub(x, y), "wp_mul": lambda x, y: P.mul(k, x), "wp_lmul": lambda x, y: P.mul(k, x)}[op]
    for n in ("first", "second"):
        if ck.require((v[n].r, v[n].c) == (a[n].r, a[n].c), key, w, "%s: %s is %dx%d" % (r.name, n, v[n].r, v[n].c)):
            com.same_vec(ck, key, w, v[n], [f(x, y) for x, y in zip(a[n].d, b[n].d)], "%s: %s" % (r.name, n))


def zero(ck, it):
    _, name, args, r1, c1 = it
    r = go(ck, name, len(args), lambda e: list(args), "%s%s" % (name, args))
    key = "waypoint/" + name
    if not clean(ck, r, key):
        return
    w = anchor(r, "initwp")
    v = r.eng.pick(r.res).f
    for n, c in (("first", c1), ("second", 1)):
        m = v[n]
        if ck.require((m.r, m.c) == (r1, c), key, w, "%s: %s is %dx%d instead of %dx%d" % (r.name, n, m.r, m.c, r1, c)):
            com.same_vec(ck, key, w, m, [0] * (r1 * c), "%s: %s" % (r.name, n))


def carrier(ck, it):
    box = {}
    r = go(ck, "wp_copy", 1, lambda e: [e.new(wpv("1", 3, 2))], "copy of a waypoint")
    if clean(ck, r, "waypoint/copy"):
        ck.require(same(r.eng, r.eng.pick(r.res), wpv("1", 3, 2)), "waypoint/copy", anchor(r, "waypoint_t"), "a copy of a waypoint differs from it")

    def args(eng):
        box["d"] = eng.new(wpv("2", 2, 4))
        return [box["d"], eng.new(wpv("1", 3, 2))]
    r = go(ck, "wp_assign", 2, args, "assignment of a waypoint")
    if clean(ck, r, "waypoint/assign"):
        ck.require(same(r.eng, r.eng.load(box["d"]), wpv("1", 3, 2)), "waypoint/assign", anchor(r, "waypoint_t"), "an assigned waypoint differs from its source")
    r = go(ck, "wp_default", 0, lambda e: [], "default waypoint")
    if clean(ck, r, "waypoint/default"):
        v = r.eng.pick(r.res).f
        ck.require(len(v["first"].d) == 0 and v["second"].r == 0, "waypoint/default", anchor(r, "waypoint_t"), "a default waypoint is not empty")
    for n in (0, 3, 6):
        r = go(ck, "wp_size", 1, lambda e: [e.new(wpv("1", n, 3))], "size of a waypoint")
        if clean(ck, r, "waypoint/size"):
            ck.require(r.eng.rv(r.res) == n, "waypoint/size", anchor(r, "size"), "size of a waypoint with %d rows is %s" % (n, r.res))


def compare(ck, it):
    """equality of waypoints, within a relative precision of each part"""
    _, op, r1, c1, at, by, prec, want = it
    a = [float(2 * i + 1) for i in range(r1 * c1)], [float(3 * i - 4) for i in range(r1)]
    b = list(a[0]), list(a[1])
    if at is not None:
        b[at[0]][at[1]] += by
    mk = lambda m: Obj("bezier_com_traj::waypoint_t", {"first": Mat(r1, c1, list(m[0])), "second": Mat(r1, 1, list(m[1]))})
    r = go(ck, op, 3 if prec is not None else 2, lambda e: [e.new(mk(a)), e.new(mk(b))] + ([prec] if prec is not None else []), "%s of %dx%d waypoints, %s differs by %s, precision %s" % (op, r1, c1, at, by, prec))
    key = "waypoint/" + op
    if not clean(ck, r, key):
        return
    v = r.eng.rv(r.res)
    if not isinstance(v, (bool, int)):
        raise Abort("%s: %r" % (r.name, v))
    ck.require(bool(v) == want, key, anchor(r, "waypoint_t"), "%s: result %s" % (r.name, bool(v)))


def skew(ck, it):
    x, y = v3("x"), v3("y")
    r = go(ck, "skew_of", 1, lambda e: [e.new(x)], "cross product matrix")
    if not clean(ck, r, "skew"):
        return
    w = anchor(r, "skew")
    m = r.eng.pick(r.res)
    if ck.require((m.r, m.c) == (3, 3), "skew", w, "cross product matrix is %dx%d" % (m.r, m.c)):
        com.same_vec(ck, "skew", w, [O.dot([m.g(i, j) for j in range(3)], y.d) for i in range(3)], O.cross(x.d, y.d), "cross product matrix applied to a vector")


def bern(ck, it):
    _, deg = it
    import math
    r = com.Run(ck, "Bernstein polynomials of degree %d" % deg)
    r.go("bezier_com_traj::ComputeBersteinPolynoms", 1, lambda e: [deg])
    if not clean(ck, r, "bernstein"):
        return
    w = r.where()
    v = r.eng.pick(r.res)
    if not ck.require(len(v.v) == deg + 1, "bernstein", w, "%d polynomials of degree %d" % (len(v.v), deg)):
        return
    for i, b in enumerate(v.v):
        f = r.eng.pick(b).f
        ck.require(f.get("m") == deg and f.get("i") == i, "bernstein", w, "polynomial %d of degree %d is number %s of degree %s" % (i, deg, f.get("i"), f.get("m")))


def samples(ck, it):
    """sampled wrench waypoints of the curve with five control points"""
    _, n = it
    r = com.Run(ck, "wrench waypoints sampled in %d steps" % n)
    prog = program()

    def args(eng):
        b = eng.rv(eng.call(prog.fn("bezier_com_traj::ComputeBersteinPolynoms", 1)[0], [4]))
        w = [Obj("std::pair", {"first": mat("A%d" % i, 6, 3), "second": vec("b%d" % i, 6)}) for i in range(5)]
        return [Vec(w), b, n]
    r.go("bezier_com_traj::ComputeDiscretizedWaypoints", 3, args)
    if not clean(ck, r, "sampled"):
        return
    w = r.where()
    v = r.eng.pick(r.res)
    if not ck.require(len(v.v) == n + 1, "sampled", w, "%s: %d samples instead of %d" % (r.name, len(v.v), n + 1)):
        return
    import math
    for k, s in enumerate(v.v):
        f = r.eng.pick(s).f
        u = k / n
        be = [math.comb(4, i) * u ** i * (1 - u) ** (4 - i) for i in range(5)]
        for nm, mk in (("first", lambda i: mat("A%d" % i, 6, 3)), ("second", lambda i: vec("b%d" % i, 6))):
            ms = [mk(i).d for i in range(5)]
            want = []
            for j in range(len(ms[0])):
                t = 0
                for i in range(5):
                    t = P.add(t, P.mul(be[i], ms[i][j]))
                want.append(t)
            com.same_vec(ck, "sampled", w, f[nm], want, "%s: %s of sample %d" % (r.name, nm, k))


def norm(ck, it):
    """rows: list of patterns; 'z+' / 'z-' empty row with non negative / negative constant, 'g' generic row"""
    _, rows, cols = it
    box = {}
    A, b = [], []
    for i, p in enumerate(rows):
        if p == "g":
            A += [P.sym("A_%d_%d" % (i, j), pos=True) if (i + j) % 3 else P.neg(P.sym("A_%d_%d" % (i, j), pos=True)) for j in range(cols)]
            b.append(P.sym("b_%d" % i))
        elif p == "s":
            A += [P.sym("A_%d_%d" % (i, j), pos=True) if j == i % cols else 0.0 for j in range(cols)]
            b.append(P.sym("b_%d" % i))
        else:
            A += [0.0] * cols
            b.append(P.sym("b_%d" % i, pos=True) if p == "z+" else 0.0 if p == "z0" else P.neg(P.sym("b_%d" % i, pos=True)))
    n = len(rows)
    A0, b0 = Mat(n, cols, list(A)), Mat(n, 1, list(b))

    def args(eng):
        box["A"], box["b"] = eng.new(A0), eng.new(b0)
        return [box["A"], box["b"]]
    r = go(ck, "normalize", 2, args, "normalisation of the rows %s" % (rows,))
    key = "normalise"
    if not clean(ck, r, key):
        return
    w = anchor(r, "Normalize")
    An, bn = r.eng.load(box["A"]), r.eng.load(box["b"])
    if not ck.require((An.r, An.c, bn.r) == (n, cols, n), key, w, "%s: sizes changed" % r.name):
        return
    k = r.eng.rv(r.res)
    xs = [P.sym("X%d" % i) for i in range(cols)]
    row = lambda M, v, i: P.sub(O.dot([M.g(i, j) for j in range(cols)], xs), v.d[i])
    act = [row(An, bn, i) for i in range(n)]
    exp = [O.Row(row(A0, b0, i), "row %d" % i) for i in range(n)]
    bad = "z-" in rows
    live = sum(1 for p in rows if p in ("g", "s"))
    ck.require(k == (-1 if bad else live), key + "/count", w, "%s: returns %s instead of %d" % (r.name, k, -1 if bad else live))
    # empty rows with a non negative constant say nothing: they may be anywhere
    sat = lambda p: not any(P.SYMS[s].name.startswith("X") for s in P.syms_of(p))
    com.compare_rows(ck, r, key, [p for p in act if not sat(P.num(p))], [None] * n, [e for e in exp if not sat(P.num(e.p))])
    if not bad:
        for i in range(n):
            z = all(P.isnum(An.g(i, j)) and An.g(i, j) == 0 for j in range(cols))
            ck.require(z == (i >= live), key + "/order", w, "%s: row %d is %s" % (r.name, i, "empty but counted" if z else "not counted"))
            if not z and i < live:
                sq = O.dot([An.g(i, j) for j in range(cols)], [An.g(i, j) for j in range(cols)])
                com.same(ck, key + "/length", w, sq, 1, "%s: squared length of row %d" % (r.name, i))


TINY = [1e-7, -3e-7, 1e-9, 0.0, -2e-6, 5e-12, 1e-30, 4e-4, 0.0, -1e-15, 2.5, -7e6, 3e9, 1e-6]


def normnum(ck, it):
    """rows with numerical entries: a row with one non zero entry, however small, counts; its half space is kept"""
    _, rows, cols = it
    box = {}
    A, b = [], []
    for i, p in enumerate(rows):
        if p == "0":
            A += [0.0] * cols
        else:
            A += [TINY[(i * 3 + j * p) % len(TINY)] for j in range(cols)]
            if not any(A[-cols:]):
                A[-1] = TINY[i % 3]
        b.append(TINY[(i * 5 + 2) % len(TINY)] if p != "0" else [0.0, 1e-8, 3.0, 2e-16][i % 4])
    n = len(rows)
    A0, b0 = Mat(n, cols, list(A)), Mat(n, 1, list(b))

    def args(eng):
        box["A"], box["b"] = eng.new(A0), eng.new(b0)
        return [box["A"], box["b"]]
    r = go(ck, "normalize", 2, args, "normalisation of rows with entries of all magnitudes %s" % (rows,))
    key = "normalise/magnitude"
    if not clean(ck, r, key):
        return
    w = anchor(r, "Normalize")
    An, bn = r.eng.load(box["A"]), r.eng.load(box["b"])
    k = r.eng.rv(r.res)
    live = [i for i in range(n) if any(A[i * cols:(i + 1) * cols])]
    if not ck.require(k == len(live) and (An.r, An.c, bn.r) == (n, cols, n), key + "/count", w, "%s: returns %s instead of %d" % (r.name, k, len(live))):
        return
    full = lambda M, v, i: [float(M.g(i, j)) for j in range(cols)] + [float(v.d[i])]
    got = [full(An, bn, i) for i in range(len(live))]
    for i in live:
        x = A[i * cols:(i + 1) * cols] + [b[i]]
        z = sum(v * v for v in x[:-1]) ** .5
        x = [v / z for v in x]
        m = [y for y in got if all(abs(u - v) <= 1e-9 * max(abs(u), abs(v)) for u, v in zip(x, y))]
        ck.require(m, key, w, "%s: no row of the result is the half space of row %d, %s" % (r.name, i, x))


def one(ck, it):
    globals()[it[0]](ck, it)


def run(ck):
    ck.units = len(program([TU]).tus)
    out = []
    for r1, c1 in ((3, 3), (6, 3), (2, 4)):
        for at in [None] + [(0, i) for i in range(r1 * c1)] + [(1, i) for i in range(r1)]:
            out += [("compare", "wp_eq", r1, c1, at, 1.0, None, at is None), ("compare", "wp_ne", r1, c1, at, 1.0, None, at is not None)]
            if at:
                out += [("compare", "wp_near", r1, c1, at, 1e-3, 0.5, True), ("compare", "wp_near", r1, c1, at, 1e-3, 1e-6, False)]
    for op in ("wp_add", "wp_sub"):
        for s1 in ((3, 3), (2, 5), (6, 3), (1, 1), (30, 7)):
            for s2 in (s1, (3, 2), (5, 3), (6, 6)):
                out.append(("algebra", op, s1, s2))
    for op in ("wp_mul", "wp_lmul"):
        for s1 in ((3, 3), (2, 5), (6, 3), (1, 1)):
            out.append(("algebra", op, s1, s1))
    for rc in ((3, 3), (6, 3), (1, 9), (0, 0), (30, 7)):
        out.append(("zero", "wp_init", rc, rc[0], rc[1]))
    for n in (1, 3, 6):
        out.append(("zero", "wp_zero", (n,), n, n))
    out += [("zero", "wp9", (), 3, 9), ("zero", "wp6", (), 6, 3), ("zero", "wp3", (), 3, 3), ("carrier",), ("skew",)]
    out += [("bern", d) for d in list(range(0, 12)) + [20, 30]]
    out += [("samples", n) for n in (1, 2, 5, 40, 130) + ((16, 257) if ck.thorough else ())]
    pats = [("g",), ("g", "g", "g"), ("z+",), ("z0", "z+"), ("g", "z+", "g"), ("z+", "g", "z0", "g"), ("g", "g", "z+"), ("z+", "z0", "g"), ("s", "z+", "g", "s"), ("g", "z-", "g"), ("z+", "z-"), ("z0", "z0", "z0", "g")]
    pats += [("g",) * 40, ("g",) * 12 + ("z+",) * 9 + ("g",) * 13 + ("z0",)]
    if ck.thorough:
        import itertools
        pats += [p for n in (4, 5) for p in itertools.product(("g", "z+", "s"), repeat=n)]
    for p in pats:
        for c in (3, 6) if not ck.thorough else (3,):
            out.append(("norm", p, c))
    for rows in ((1,), (2, 5), (3, "0", 1, "0", 4), (1, 2, 3, 4, 5, 6, 7), ("0", 1)):
        for c in (3, 6):
            out.append(("normnum", rows, c))
    ck.map(one, out)
