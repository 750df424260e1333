import com
import match as M
import oracle as O

RULE = "rows (A,b) reaching the solver in discretised mode = stability + kinematic (+ acceleration) rows of every sample instant, for the sample's phase(s), and nothing else"
EXPLAIN = "every family of boundary conditions x number of phases x sampling mode x options is an analysed configuration of the public entry point; the A,b value-flow polynomials that reach the solver call are matched with the rows derived from the problem definition, up to positive scaling, order and repetition"
FLOOR = 2000
ASSUME = ["contact phases of one problem share the gravity vector", "cone rows are not zero vectors (generic entries)"]


def one(ck, cfg):
    r = com.run_com(ck, cfg)
    key = "%s/%s" % (cfg.fam, cfg.mode[0])
    if not r.usable(key):
        return
    a = r.cap.calls[0]["args"]
    A, b, D, d = a[:4]
    ck.require(D.r == 0 and d.r == 0, key + "/equalities", r.where(), "%s: %d equality rows are handed to the solver, none is required" % (r.name, D.r))
    xs = r.spec.var_list()
    if not ck.require(A.c == 3 and A.r == b.r, key + "/shape", r.where(), "%s: A is %dx%d, b has %d entries" % (r.name, A.r, A.c, b.r)):
        return
    act, locs = com.rows_of(A, b, xs)
    com.compare_rows(ck, r, key, act, locs, com.expected_discrete(r))


def configs(ck):
    out = []
    for fam in O.COM:
        out.append(com.Cfg(fam, ("fixed", 1, 3), acc=True))
        out.append(com.Cfg(fam, ("fixed", 2, 3), acc=False, nrows=[2, 3], nkin=[1, 2]))
        out.append(com.Cfg(fam, ("step", (2.5, 3.25)), acc=True, nrows=[3, 2], nkin=[2, 0]))
        out.append(com.Cfg(fam, ("fixed", 3, 1), acc=True, nrows=[1, 2, 1], nkin=[1, 0, 1], solver=2, shared=False, cost="DISTANCE_TRAVELED"))
        out.append(com.Cfg(fam, ("step", (1.5, 2.25, 0.5)), acc=True, nrows=1, nkin=1, solver=2))
        # numbers for the durations: more phases, very short and very long ones
        out.append(com.Cfg(fam, ("fixed", 7, 2), acc=True, nrows=[1, 2, 1, 1, 2, 1, 1], nkin=[1, 0, 2, 1, 1, 2, 1], dur=[0.5, 0.25, 1, 0.75, 0.125, 0.875, 0.5]))
        out.append(com.Cfg(fam, ("step", (3, 5, 7, 1)), acc=True, nrows=1, nkin=[1, 2, 1, 1], dt=0.25))
        out.append(com.Cfg(fam, ("fixed", 2, 2), acc=True, nrows=1, nkin=1, dur=[2.0 ** -10, 3 * 2.0 ** -10]))
        out.append(com.Cfg(fam, ("fixed", 2, 2), acc=True, nrows=1, nkin=1, dur=[3 * 2.0 ** 8, 2.0 ** 8]))
        if ck.thorough or fam == "c0_dc0_c1":
            out.append(com.Cfg(fam, ("fixed", 16, 1), acc=True, nrows=1, nkin=1, dur=[0.25] * 16))
            out.append(com.Cfg(fam, ("step", (8, 8)), acc=True, nrows=1, nkin=1, dt=0.0625))
            out.append(com.Cfg(fam, ("step", (3.3, 5, 0.2, 2)), acc=True, nrows=1, nkin=1, dt=0.1))
            out.append(com.Cfg(fam, ("fixed", 1, 600), acc=True, nrows=1, nkin=1, dur=[1.0]))
            out.append(com.Cfg(fam, ("fixed", 1, 1), acc=True, nrows=520, nkin=1, dur=[1.0]))
            out.append(com.Cfg(fam, ("step", (1.5, 2.25, 1.25)), acc=True, nrows=2, nkin=1, shared=True))
            out.append(com.Cfg(fam, ("fixed", 8, 1), acc=True, nrows=1, nkin=1))
            out.append(com.Cfg(fam, ("fixed", 2, 16), acc=True, nrows=1, nkin=1))
            out.append(com.Cfg(fam, ("fixed", 1, 70), acc=True, nrows=1, nkin=1))
            out.append(com.Cfg(fam, ("step", (40.5, 30.75)), acc=True, nrows=1, nkin=1))
            out.append(com.Cfg(fam, ("step", (1.25,) * 7), acc=False, nrows=1, nkin=1))
            out.append(com.Cfg(fam, ("fixed", 5, 2), acc=True, nrows=[2, 1, 3, 1, 2], nkin=[1, 2, 1, 3, 1]))
            out.append(com.Cfg(fam, ("step", (2.5, 2.25, 2.75, 3.5)), acc=False, nrows=[1, 2, 1, 2], nkin=[1, 2, 1, 1]))
            out.append(com.Cfg(fam, ("step", (1.25, 0.5, 1.5, 0.75)), acc=True, nrows=2, nkin=[1, 1, 1, 2], shared=[0, 1, 1, 0]))
            out.append(com.Cfg(fam, ("step", (0.5,)), acc=True))
            out.append(com.Cfg(fam, ("step", (0.25, 0.5)), acc=True))
            # as many rows as a real problem has
            out.append(com.Cfg(fam, ("fixed", 1, 1), acc=True, nrows=300, nkin=300))
            out.append(com.Cfg(fam, ("step", (0.5, 1.5)), acc=True, nrows=[5, 130], nkin=[70, 3]))
        if ck.thorough or fam in ("c0_dc0_c1", "c0_dc0_ddc0_dc1_c1"):
            out.append(com.Cfg(fam, ("fixed", 3, 2), acc=True, nrows=[2, 3, 1], nkin=[0, 2, 1]))
            out.append(com.Cfg(fam, ("step", (3.25, 2.5, 2.25)), acc=False, nrows=[1, 2, 3], nkin=[1, 0, 2]))
            out.append(com.Cfg(fam, ("step", (4.5,)), acc=False, nkin=0))
        if ck.thorough:
            out.append(com.Cfg(fam, ("fixed", 3, 7), acc=True, nkin=[1, 1, 2]))
            out.append(com.Cfg(fam, ("step", (7.5, 5.25, 6.75)), acc=True, nrows=[2, 2, 2], nkin=[1, 2, 1]))
            out.append(com.Cfg(fam, ("step", (3.5, 2.5)), acc=True, red=0))
    return out


def run(ck):
    ck.units = len(com.program().tus)
    ck.map(one, configs(ck))
