import com
import oracle as O
import poly as P
from scen import *

RULE = "(instant, phase) list: instants = 0, every multiple of the step (or equal subdivision) inside each phase and every phase end, in order, inside the phase they are attached to; the last instant of each phase is its end"
EXPLAIN = "both discretisations are analysed for every listed number of phases, points and step ratio, with symbolic durations (or a symbolic step), and the returned list is compared entry by entry"
FLOOR = 300


def one(ck, mode):
    c = com.Cfg("c0_dc0_c1", mode)
    Ts, T, samples = c.times()
    r = com.Run(ck, "%s, %s" % ("fixed" if mode[0] == "fixed" else "time step", mode[1:]))
    tv = Mat(len(Ts), 1, Ts)
    key = "fixed number" if mode[0] == "fixed" else "time step"
    if mode[0] == "fixed":
        r.go("bezier_com_traj::computeDiscretizedTimeFixed", 2, lambda e: [tv, mode[2]])
    else:
        r.go("bezier_com_traj::computeDiscretizedTime", 2, lambda e: [tv, P.sym("dt", pos=True)])
    if not r.usable(key, single=False):
        return
    v = r.eng.pick(r.res)
    got = [(r.eng.pick(x).f["first"], r.eng.pick(x).f["second"]) for x in v.v]
    w = r.where()
    ids = [p for _, p in got]
    ck.require(all(isinstance(p, int) or (P.isnum(p) and p == int(p)) for p in ids), key + "/phase", w, "%s: phase numbers %s" % (r.name, ids))
    ck.require(ids == sorted(ids) and set(ids) == set(range(len(Ts))), key + "/phase order", w, "%s: phase numbers %s are not the phases in order" % (r.name, ids))
    # consecutive equal instants merge
    merged = []
    for t, p in got:
        if merged and P.equal(P.num(t), P.num(merged[-1][0])):
            merged[-1][1].append(p)
        else:
            merged.append((t, [p]))
    uniq = []
    for t, ps in samples:
        if uniq and P.equal(P.num(t), P.num(uniq[-1][0])):
            uniq[-1] = (t, sorted(set(uniq[-1][1]) | set(ps)))
        else:
            uniq.append((t, ps))
    samples = uniq
    if not ck.require(len(merged) == len(samples), key + "/count", w, "%s: %d distinct instants instead of %d" % (r.name, len(merged), len(samples))):
        return
    for k, ((t, ps), (et, eps)) in enumerate(zip(merged, samples)):
        com.same(ck, key + "/instant", w, t, et, "%s: instant %d" % (r.name, k))
        for p in ps:
            ck.require(p in eps, key + "/phase", w, "%s: instant %d is attached to phase %s, it belongs to %s" % (r.name, k, p, eps))
    end = 0
    for i, Ti in enumerate(Ts):
        end = P.add(end, Ti)
        last = [t for t, p in got if p == i]
        if last:
            com.same(ck, key + "/phase end", w, last[-1], T if i + 1 == len(Ts) else end, "%s: last instant of phase %d" % (r.name, i))
    ck.sample("%s -> %s" % (r.name, ", ".join("(%s,%s)" % (P.pstr(t, 30), p) for t, p in got[:6])))


def run(ck):
    ck.units = len(com.program().tus)
    m = []
    N = 5 if ck.thorough else 3
    for n in range(1, N + 1):
        for k in (range(1, 12) if ck.thorough else (1, 2, 3, 7)):
            m.append(("fixed", n, k))
    rs = [(2.5,), (4.,), (2., 3.), (2.5, 3.25), (3.25, 2.5, 2.25), (4., 2.75, 2.), (2.1, 2.9)]
    if ck.thorough:
        rs += [(7.5, 5.25, 6.75), (2.25,) * 5, (12.5, 3.), (10.,) * 3]
    m += [("fixed", 6, 1), ("fixed", 9, 2), ("fixed", 1, 130), ("fixed", 2, 40)]
    rs += [(70.5,), (40., 33.25), (2.25, 1.5, 3.75, 1.25, 2.5, 1.75, 3.25), (.5,), (.25, .5), (2.004, 3.001), (1.9995,), (3.9995, 1.0005), (130.01,), (1.0625, 1.996, 4.)]
    m += [("step", x) for x in rs]
    ck.map(one, m)
