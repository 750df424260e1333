#!/opt/veriftools/pyvenv/bin/python3
"""qpfind.py: searches small reduced problems (cost |y|^2/2, integer constraints) on which the active set iterations
take an unusual course; prints them for props/c17.py"""
import itertools, random, sys
import numpy as np


def gi(n, eq, iq):
    """numeric dual active set method; the events on the way, or None when a comparison is too close"""
    ev = set()
    N = np.zeros((n, 0)); A = []; u = np.zeros(0)
    y = np.zeros(n)
    for k, (v, b) in enumerate(eq):
        v = np.array(v, float)
        B = np.column_stack([N, v])
        if np.linalg.matrix_rank(B) < B.shape[1]:
            return None
        N = B
        A.append(-k - 1)
    if eq:
        G = N.T @ N
        u = np.linalg.solve(G, -np.array([b for _, b in eq], float))
        y = N @ u
    ne = len(eq)
    dropped = set()
    for it in range(60):
        s = np.array([np.dot(v, y) + b for v, b in iq])
        cand = [i for i in range(len(iq)) if i not in A and s[i] < -1e-9]
        if any(abs(x) < 1e-6 and abs(x) > 1e-12 for i, x in enumerate(s) if i not in A):
            return None
        if not cand:
            return ev, it
        ip = min(cand, key=lambda i: s[i])
        sv = sorted(s[i] for i in cand)
        if len(sv) > 1 and sv[1] - sv[0] < 1e-6:
            ev.add("tie")
        if ip in dropped:
            ev.add("readd")
        v = np.array(iq[ip][0], float)
        up = 0.0
        drops = 0
        while True:
            if N.shape[1]:
                r = np.linalg.lstsq(N, v, rcond=None)[0]
                z = v - N @ r
            else:
                r = np.zeros(0); z = v.copy()
            zz = z @ z
            if 1e-12 < zz < 1e-6:
                return None
            t1, l = np.inf, None
            rr = [(u[k] / r[k], k) for k in range(ne, len(A)) if r[k] > 1e-9]
            if rr:
                t1, l = min(rr)
                q = sorted(x for x, _ in rr)
                if len(q) > 1 and q[1] - q[0] < 1e-6:
                    ev.add("tie1")
            t2 = np.inf if zz < 1e-9 else -(np.dot(v, y) + iq[ip][1]) / zz
            t = min(t1, t2)
            if t == np.inf:
                ev.add("infeasible")
                if drops: ev.add("infeasible after drop")
                return ev, it
            if t1 < np.inf and abs(t1 - t2) < 1e-6:
                return None
            u = u - t * r
            up += t
            if t2 < np.inf:
                y = y + t * z
            if t == t2:
                N = np.column_stack([N, v]); A.append(ip); u = np.append(u, up)
                dropped.discard(ip)
                if len(A) == n: ev.add("full")
                break
            ev.add("dual drop" if t2 == np.inf else "partial drop")
            drops += 1
            if drops > 1: ev.add("two drops")
            if l < len(A) - 1: ev.add("drop inside")
            if l == len(A) - 1: ev.add("drop last")
            if l == ne: ev.add("drop first")
            if ne: ev.add("drop with equalities")
            dropped.add(A[l])
            N = np.delete(N, l, 1); u = np.delete(u, l); A.pop(l)
    return None


if __name__ == "__main__":
    rnd = random.Random(int(sys.argv[1]))
    want = {}
    import time
    t0 = time.time()
    while time.time() - t0 < float(sys.argv[2]):
        n = rnd.choice((2, 3, 3, 4))
        ne = rnd.choice((0, 0, 0, 1))
        ni = rnd.randint(3, 9)
        V = lambda: tuple(rnd.choice((-4, -3, -2, -1, 0, 0, 1, 2, 3, 4, 5)) for _ in range(n))
        eq = tuple((V(), rnd.randint(-4, 4)) for _ in range(ne))
        y0 = [rnd.randint(-3, 3) for _ in range(n)]
        iq = []
        for _ in range(ni):
            v = V()
            iq.append((v, rnd.randint(0, 2) - sum(a * b for a, b in zip(v, y0)) if rnd.random() < .9 else rnd.randint(-6, 3)))
        if any(not any(v) for v, _ in list(eq) + iq):
            continue
        r = gi(n, eq, iq)
        if not r:
            continue
        ev, its = r
        interesting = ev & {"readd", "two drops", "drop inside", "infeasible after drop", "dual drop"}
        if not interesting:
            continue
        k = (n, ne, frozenset(ev))
        size = (ni, its)
        l = want.setdefault(k, [])
        l.append((size, (n, eq, tuple(iq))))
        l.sort(key=lambda x: x[0])
        del l[3:]
    for k in sorted(want, key=str):
        for size, p in want[k][: 1 if "readd" not in k[2] else 3]:
            print("    %r,  # %s" % (p, ", ".join(sorted(k[2]))))
