import com
import match as M
import oracle as O
import poly as P
from scen import *

RULE = "rows (A,b), equalities (D,d) and bounds reaching the solver in continuous mode = kinematic rows at the control points of the curve restricted to each phase, stability (cone inequalities, or contact-force equalities with non negative forces) at the control points of the restricted wrench curve, acceleration rows iff requested"
EXPLAIN = "every family x phases x representation x options is an analysed configuration of the public entry point without time step; the value-flow polynomials reaching the solver are matched with rows derived from Bezier restriction (blossoming), independently of the code"
FLOOR = 2000
ASSUME = ["contact phases of one problem share the gravity vector", "cone rows are not zero vectors (generic entries)",
          "the wrench curve may be written at any degree between its true degree and 2n-2"]


def wdegrees(r):
    full = O.wrench(r.cps, r.T, r.g)
    out = []
    for d in range(len(full) - 1, -1, -1):
        if com.at_degree(full, d) is None:
            break
        out.append(d)
    return out


def best(ck, r, key, actual, locs, build):
    """tries the admissible degrees of the wrench; keeps the best match"""
    cand = None
    for d in wdegrees(r):
        exp = build(d)
        rep = M.Report()
        M.match_rows(actual, locs, exp, rep, r.name)
        if cand is None or len(rep.bad) < len(cand[0].bad):
            cand = (rep, exp, d)
        if not rep.bad:
            break
    rep, exp, d = cand
    ck.ok(rep.obligations)
    for what, loc, det in rep.bad:
        ck.fail("%s/%s" % (key, "missing row" if "missing" in what else "extra row"), com.rel(com.loc_s(loc)) or r.where(), what + "; " + det)
    ck.sample("%s: wrench degree %d, %s  <=>  %s <= 0" % (r.name, d, exp[-1].what, P.pstr(exp[-1].p, 160)))
    return d


def nobounds(ck, r, key, lo, hi, n, lower0=()):
    """no variable bound other than 0 <= force"""
    for v, up, nm in ((lo, False, "lower"), (hi, True, "upper")):
        if v.r == 0:
            continue
        ck.require(v.r == n, key + "/bounds", r.where(), "%s: %d %s bounds for %d variables" % (r.name, v.r, nm, n))
        for j in range(min(v.r, n)):
            x = v.d[j]
            if j in lower0 and not up:
                continue
            ok = P.isnum(x) and (x >= 100000. if up else x <= -100000.)
            ck.require(ok, key + "/bounds", r.where(), "%s: variable %d gets the %s bound %s" % (r.name, j, nm, P.pstr(x, 60)))


def dd(ck, cfg):
    r = com.run_com(ck, cfg)
    key = "%s/double description" % cfg.fam
    if not r.usable(key):
        return
    A, b, D, d = r.cap.calls[0]["args"][:4]
    lo, hi = r.cap.calls[0]["args"][7:9]
    ck.require(D.r == 0 and d.r == 0, key + "/equalities", r.where(), "%s: %d equality rows, none is required" % (r.name, D.r))
    if not ck.require(A.c == 3 and A.r == b.r, key + "/shape", r.where(), "%s: A is %dx%d, b has %d entries" % (r.name, A.r, A.c, b.r)):
        return
    nobounds(ck, r, key, lo, hi, 3)
    act, locs = com.rows_of(A, b, r.spec.var_list())
    best(ck, r, key, act, locs, lambda wd: com.expected_continuous(r, wd))


def force(ck, cfg):
    r = com.run_com(ck, cfg)
    key = "%s/force" % cfg.fam
    if not r.usable(key):
        return
    A, b, D, d = r.cap.calls[0]["args"][:4]
    lo, hi = r.cap.calls[0]["args"][7:9]
    nv = A.c
    if not ck.require(A.r == b.r and D.r == d.r and (D.c == nv or D.r == 0), key + "/shape", r.where(), "%s: A %dx%d b %d D %dx%d d %d" % (r.name, A.r, A.c, b.r, D.r, D.c, d.r)):
        return
    # inequalities: kinematics and acceleration, no force involved except -f <= 0
    xs = r.spec.var_list() + [P.sym("F%d" % j) for j in range(nv - 3)]
    act, locs = com.rows_of(A, b, xs)
    exp = com.expected_continuous(r, 2 * r.spec.deg - 2, stab=False)
    fpos = set()
    for j in range(3, nv):
        e = O.Row(P.neg(xs[j]), "force %d >= 0" % j, req=False)
        exp.append(e)
    rep = M.Report()
    hit = M.match_rows(act, locs, exp, rep, r.name)
    ck.ok(rep.obligations)
    for what, loc, det in rep.bad:
        ck.fail("%s/%s" % (key, "missing row" if "missing" in what else "extra row"), com.rel(com.loc_s(loc)) or r.where(), what + "; " + det)
    for k, e in enumerate(exp):
        if hit[k] and e.what.startswith("force "):
            fpos.add(int(e.what.split()[1]))
    for j in range(3, nv):
        z = lo.r > j and P.isnum(lo.d[j]) and lo.d[j] == 0
        ck.require(z or j in fpos, key + "/force sign", r.where(), "%s: the contact force variable %d is not constrained to be non negative" % (r.name, j))
    nobounds(ck, r, key, lo, hi, nv, lower0=range(3, nv))
    # equalities: G f + m w(x) = m g, one fresh force vector per kept control point
    cand = None
    for wd in wdegrees(r):
        bad = forces(ck, r, D, d, wd)
        if cand is None or len(bad) < len(cand):
            cand = bad
        if not bad:
            break
    for k, w, t in cand:
        ck.fail(key + "/" + k, w or r.where(), "%s: %s" % (r.name, t))


def forces(ck, r, D, d, wd):
    bad = []
    w = com.at_degree(O.wrench(r.cps, r.T, r.g), wd)
    xs = r.spec.var_list()
    groups = {}
    for i in range(D.r):
        cols = frozenset(j for j in range(3, D.c) if D.d[i * D.c + j] != 0)
        groups.setdefault(cols, []).append(i)
    merged = []
    for cols, rows in groups.items():
        hit = [m for m in merged if m[0] & cols]
        for m in hit:
            merged.remove(m)
        c, rr = set(cols), list(rows)
        for m in hit:
            c |= m[0]
            rr += m[1]
        merged.append((c, rr))
    # required control points
    exp = []
    a = 0
    n = len(r.Ts)
    ncol = [com.phase(r, i)[0]["m_G_centr"].c for i in range(n)]
    for i, Ti in enumerate(r.Ts):
        b = r.T if i + 1 == n else P.add(a, Ti)
        pts = O.restrict(w, 0 if n == 1 else P.div(a, r.T), 1 if n == 1 else P.div(b, r.T))
        eq = com.phase(r, i)[0]
        for k, p in enumerate(pts):
            rhs = [P.mul(eq["m_mass"], P.sub(x, y)) for x, y in zip(p, list(r.g) + [0, 0, 0])]
            # a control point shared with a neighbour whose cone is smaller is implied by it
            drop = (k == wd and i + 1 < n and ncol[i + 1] <= ncol[i]) or (k == 0 and i > 0 and ncol[i - 1] < ncol[i])
            tie = None
            if k == 0 and i > 0 and ncol[i - 1] == ncol[i]:
                tie = (i - 1, wd)
            if k == wd and i + 1 < n and ncol[i + 1] == ncol[i]:
                tie = (i + 1, 0)
            exp.append({"ph": i, "k": k, "rhs": rhs, "G": eq["m_G_centr"], "req": not drop and tie is None, "tie": tie, "hit": 0})
        a = b
    canon = {}
    for ei, e in enumerate(exp):
        for c6, p in enumerate(e["rhs"]):
            c = M.canon(p)
            canon.setdefault(c[0] if c else None, []).append((ei, c6, c, p))
    used = set()
    for cols, rows in merged:
        loc = com.rel(com.loc_s(D.l[rows[0] * D.c]))
        if any(j in used for j in cols):
            bad.append(("force equality", loc, "force variables are shared between control points"))
        used |= cols
        match = None
        polys = []
        for i in rows:
            p = P.neg(d.d[i])
            for j, x in enumerate(xs):
                p = P.add(p, P.mul(D.d[i * D.c + j], x))
            polys.append(p)
        for ei, e in enumerate(exp):
            if len(rows) == 6 and len(cols) == e["G"].c and force_block(D, rows, sorted(cols), polys, e):
                match = ei
                e["hit"] += 1
                break
        if match is None:
            bad.append(("force equality", loc, "equality rows %s are not the force balance of any control point of the wrench" % rows[:6]))
    for e in exp:
        ck.ok()
        if e["hit"]:
            continue
        if e["req"]:
            bad.append(("force balance missing", "", "no equality ties the contact forces to control point %d of phase %d" % (e["k"], e["ph"])))
        elif e["tie"]:
            o = [x for x in exp if (x["ph"], x["k"]) == e["tie"]][0]
            if not o["hit"]:
                bad.append(("force balance missing", "", "no equality at the switch between phases %d and %d" % (min(e["ph"], o["ph"]), max(e["ph"], o["ph"]))))
    return bad


def force_block(D, rows, cols, polys, e):
    G = e["G"]
    perm = {}
    # row i of the block: s_i * (G[c6] f + rhs[c6]) with s_i != 0
    for i, p in zip(rows, polys):
        c6 = None
        for c, q in enumerate(e["rhs"]):
            if c in perm.values():
                continue
            for s in (1, -1):
                if M.prop(p, P.scale(q, s) if not P.isnum(q) else s * q):
                    c6 = (c, s, q)
        if c6 is None:
            return False
        perm[i] = c6[0]
        # same factor on the force part: cross-multiply
        c, s, q = c6
        ents = []
        for j in cols:
            ents.append(P.mul(D.d[i * D.c + j], q))
        want = [P.mul(G.g(c, k), p) for k in range(G.c)]
        if i == rows[0]:
            order = []
            for x in ents:
                k = [k for k in range(G.c) if k not in order and P.equal(x, want[k])]
                if not k:
                    return False
                order.append(k[0])
        else:
            for x, k in zip(ents, order):
                if not P.equal(x, want[k]):
                    return False
    return True


def one(ck, cfg):
    (force if cfg.kw.get("rep") == "FORCE" else dd)(ck, cfg)


def configs(ck):
    out = []
    for fam in O.COM:
        big = O.Spec(O.COM[fam]).deg >= 6
        out.append(com.Cfg(fam, ("cont", 1), acc=True, nrows=2, nkin=2))
        out.append(com.Cfg(fam, ("cont", 1), acc=False, nrows=1, nkin=0))
        out.append(com.Cfg(fam, ("cont", 1), acc=False, rep="FORCE", ncols=[4]))
        out.append(com.Cfg(fam, ("cont", 1), acc=False, nrows=1, nkin=1, solver=2))
        out.append(com.Cfg(fam, ("cont", 1), acc=True, rep="FORCE", ncols=[4], nkin=0, solver=2))
        # numbers for the durations: more phases, very short and very long ones
        out.append(com.Cfg(fam, ("cont", 5), acc=True, nrows=[1, 2, 1, 1, 2], nkin=[1, 0, 2, 1, 1], dur=[0.5, 0.25, 1, 1.25, 1]))
        out.append(com.Cfg(fam, ("cont", 5), acc=False, rep="FORCE", ncols=[3, 3, 5, 4, 4], nkin=1, dur=[0.5, 0.25, 1, 1.25, 1]))
        out.append(com.Cfg(fam, ("cont", 2), acc=True, nrows=1, nkin=1, dur=[2.0 ** -10, 3 * 2.0 ** -10]))
        out.append(com.Cfg(fam, ("cont", 2), acc=True, nrows=1, nkin=1, dur=[3 * 2.0 ** 8, 2.0 ** 8]))
        if fam == "c0_dc0_c1":
            out.append(com.Cfg(fam, ("cont", 16), acc=True, nrows=1, nkin=1, dur=[0.25] * 16))
            out.append(com.Cfg(fam, ("cont", 14), acc=False, rep="FORCE", ncols=[3, 4] * 7, nkin=0, dur=[0.25, 0.5] * 7))
            out.append(com.Cfg(fam, ("cont", 2), acc=False, rep="FORCE", ncols=[640, 3], nkin=[3, 0], dur=[1.0, 1.0]))
        if ck.thorough or not big:
            out.append(com.Cfg(fam, ("cont", 2), acc=False, nrows=[1, 2], nkin=[1, 0]))
        if ck.thorough or fam in ("c0_dc0_c1", "c0_dc0_dc1"):
            out.append(com.Cfg(fam, ("cont", 2), acc=True, nrows=[2, 1], nkin=[0, 2]))
            out.append(com.Cfg(fam, ("cont", 2), acc=True, rep="FORCE", ncols=[4, 6]))
            out.append(com.Cfg(fam, ("cont", 2), acc=False, rep="FORCE", ncols=[6, 4], nkin=[2, 1]))
        if ck.thorough and not big or fam == "c0_dc0_c1":
            out.append(com.Cfg(fam, ("cont", 3), acc=False, nrows=[1, 2, 1], nkin=[1, 0, 2]))
            out.append(com.Cfg(fam, ("cont", 3), acc=False, rep="FORCE", ncols=[4, 6, 4], nkin=[1, 0, 2]))
            out.append(com.Cfg(fam, ("cont", 2), acc=False, rep="FORCE", ncols=[4, 4]))
            out.append(com.Cfg(fam, ("cont", 4), acc=True, nrows=[1, 1, 2, 1], nkin=[1, 0, 1, 2]))
            out.append(com.Cfg(fam, ("cont", 4), acc=False, rep="FORCE", ncols=[3, 5, 3, 3], nkin=[1, 0, 1, 2]))
        if fam == "c0_dc0_c1":
            out.append(com.Cfg(fam, ("cont", 3), acc=True, nrows=2, nkin=1, shared=True))
            out.append(com.Cfg(fam, ("cont", 5), acc=True, nrows=[1, 1, 2, 1, 1], nkin=[1, 0, 1, 2, 1]))
            out.append(com.Cfg(fam, ("cont", 5), acc=False, rep="FORCE", ncols=[3, 5, 3, 3, 4], nkin=[1, 0, 1, 2, 1]))
            out.append(com.Cfg(fam, ("cont", 4), acc=True, nrows=2, nkin=[1, 1, 1, 2], shared=[0, 1, 1, 0]))
            # as many rows and generators as a real problem has
            out.append(com.Cfg(fam, ("cont", 1), acc=True, nrows=150, nkin=150))
            out.append(com.Cfg(fam, ("cont", 2), acc=True, nrows=[70, 3], nkin=[3, 70]))
            out.append(com.Cfg(fam, ("cont", 2), acc=False, rep="FORCE", ncols=[64, 16], nkin=[70, 3]))
            out.append(com.Cfg(fam, ("cont", 2), acc=False, rep="FORCE", ncols=[16, 32], nkin=[3, 3]))
    return out


def run(ck):
    ck.units = len(com.program().tus)
    ck.map(one, configs(ck))
