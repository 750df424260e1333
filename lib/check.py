"""Driver of one property check: runs its analysis on /repo's current tree,
separates known findings from violations, writes the evidence file."""
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

import load
import engine as E
import poly as P
import values as V

HERE = load.HERE
KNOWN = os.path.join(HERE, "known_findings.json")


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.viol = []            # (key, where, text)
        self.obligations = 0
        self.samples = []
        self.funcs = {}
        self.scen = 0
        self.stmts = 0
        self.sites = 0
        self.assumptions = []
        self.assumed = 0
        self.rules = []
        self.units = 0
        self.notes = {}
        self.errors = []          # configurations the analysis could not finish
        self.events = []
        self.thorough = tier == "thorough"

    # ---------------------------------------------------------------- recording
    def fail(self, key, where, text):
        """a violated obligation; key identifies the instance, where = file:line"""
        self.viol.append((key, where or "", text))

    def ok(self, n=1):
        self.obligations += n

    def require(self, cond, key, where, text):
        self.obligations += 1
        if not cond:
            self.fail(key, where, text)
        return cond

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def scenario(self, name):
        self.scen += 1
        if self.scen <= 3:
            self.sample("scenario: %s" % name)

    def absorb(self, eng):
        """account for one analysed entry-point configuration"""
        for u, n in eng.visited.items():
            f = eng.prog.funcs[u]
            self.funcs[u] = "%s (%s:%d)" % (f["n"], load_rel(f["file"]), f["l"])
        self.stmts += eng.stmts
        self.sites += eng.calls
        self.assumed += sum(eng.assumed.values())
        if eng.unmodelled:
            raise E.Abort("library call without a model: %s" % ", ".join(sorted(eng.unmodelled)[:5]))


    # ------------------------------------------------------- parallel scenarios
    def map(self, fn, items, procs=None, budget=600):
        """fn(check, item) for every item, in forked workers; results merged in order.  Every item has a budget of
        seconds; a run that takes long stops at the first violations instead of finishing the other items"""
        items = list(items)
        procs = procs or min(8, os.cpu_count() or 1, len(items)) or 1
        if procs == 1 or os.environ.get("VERIF_SERIAL"):
            outs = [_one((self.prop, self.tier, fn, it, 0)) for it in items]
        else:
            global _JOBS
            _JOBS = [(self.prop, self.tier, fn, it, budget) for it in items]
            t0 = time.time()
            outs = [(None, None)] * len(items)
            left = len(items)
            with multiprocessing.get_context("fork").Pool(procs, maxtasksperchild=8) as pool:
                gen = pool.imap_unordered(_idx, range(len(items)), 1)
                while left:
                    late = any(st and st["viol"] for st, _ in outs) and time.time() > t0 + 90
                    try:
                        i, o = gen.next(timeout=1 if late else 30)
                        outs[i] = o
                        left -= 1
                    except multiprocessing.TimeoutError:
                        if late:
                            self.notes["unfinished"] = left
                            break
                pool.terminate()
        for it, (st, err) in zip(items, outs):
            if err:
                self.errors.append("%s: %s" % (str(it)[:200], err))
            if not st:
                continue
            self.viol += st["viol"]
            self.obligations += st["obligations"]
            for s in st["samples"]:
                self.sample(s)
            self.funcs.update(st["funcs"])
            self.scen += st["scen"]
            self.stmts += st["stmts"]
            self.sites += st["sites"]
            self.assumed += st["assumed"]
            for k, v in st["notes"].items():
                if isinstance(v, int):
                    self.notes[k] = self.notes.get(k, 0) + v


_JOBS = []


def _idx(i):
    return i, _one(_JOBS[i])


def _alarm(*a):
    raise E.Abort("the analysis of this configuration takes too long")


def _one(job):
    prop, tier, fn, it, budget = job
    P.reset()
    V.reset()
    c = Check(prop, tier)
    t0 = time.time()
    if budget:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(budget)
    try:
        fn(c, it)
    except E.Endless as e:
        c.require(False, "termination", load_rel(e.loc), "%s: %s never ends" % (str(it)[:200], e.fn))
    except (E.Abort, load.Broken) as e:
        if os.environ.get("VERIF_TRACE"):
            traceback.print_exc()
        if not c.viol:
            return None, str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return None, "%s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
    finally:
        signal.alarm(0)
        if os.environ.get("VERIF_TIMES"):
            print("%7.1f %s" % (time.time() - t0, str(it)[:160]), file=sys.stderr, flush=True)
    return {k: getattr(c, k) for k in ("viol", "obligations", "samples", "funcs", "scen", "stmts", "sites", "assumed", "notes")}, None


def load_rel(p):
    r = load.REPO.rstrip("/") + "/"
    return p[len(r):] if p.startswith(r) else p


def known():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return [k for k in json.load(f)["findings"] if k.get("status") == "known"]


def main(mods):
    prop = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    t0 = time.time()
    ck = Check(prop, tier)
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    rep = os.path.join(evdir, prop + ".report.txt")
    try:
        mod = mods(prop)
        try:
            mod.run(ck)
        except E.Endless as e:
            ck.require(False, "termination", load_rel(e.loc), "%s never ends" % e.fn)
        if ck.errors and not ck.viol:
            raise E.Abort(ck.errors[0] + (" (and %d more configurations)" % (len(ck.errors) - 1) if len(ck.errors) > 1 else ""))
        if not ck.viol and ck.obligations < getattr(mod, "FLOOR", 1):
            raise load.Broken("only %d obligations were generated (at least %d expected): the anchors of this rule have moved"
                              % (ck.obligations, mod.FLOOR))
    except (load.Broken, E.Abort) as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (prop, e))
        if os.environ.get("VERIF_TRACE"):
            traceback.print_exc()
        sys.exit(2)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        print("ANALYSIS-BROKEN property=%s: %s: %s (%s:%d)" % (prop, type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        if os.environ.get("VERIF_TRACE"):
            traceback.print_exc()
        sys.exit(2)
    kn = {k["key"]: k for k in known() if k["property"] == prop}
    seen, new = {}, []
    for key, where, text in ck.viol:
        if key in kn:
            seen[key] = (where, text)
        else:
            new.append((key, where, text))
    for key, (where, text) in sorted(seen.items()):
        print("KNOWN-FINDING: property=%s %s [%s] %s" % (prop, key, where, kn[key]["what"]))
    wall = time.time() - t0
    cov = {
        "explanation": mod.EXPLAIN,
        "rule": mod.RULE,
        "obligations": ck.obligations,
        "discharged": ck.obligations - len(ck.viol),
        "configurations_analysed": ck.scen,
        "functions_analysed": len(ck.funcs),
        "function_list": sorted(ck.funcs.values())[:200],
        "statements_interpreted": ck.stmts,
        "call_sites_followed": ck.sites,
        "translation_units": ck.units,
        "known_findings": sorted(seen),
        "samples": ck.samples,
    }
    cov.update(ck.notes)
    if ck.assumed:
        cov["generic_inputs_assumed_nonzero"] = ck.assumed
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": cov, "assumptions": getattr(mod, "ASSUME", []) + ck.assumptions,
          "wall_s": round(wall, 2), "violations": len(new)}
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if new:
        keys = {}
        for key, where, text in new:
            keys.setdefault((key, where), []).append(text)
        with open(rep, "w") as f:
            f.write("property %s is violated: %d failed obligations in %d instances\nrule: %s\n\n" % (prop, len(new), len(keys), mod.RULE))
            for (key, where), texts in keys.items():
                f.write("[%s] %s\n" % (where, key))
                for t in texts[:8]:
                    f.write("    %s\n" % t)
                if len(texts) > 8:
                    f.write("    ... %d more\n" % (len(texts) - 8))
        for (key, where), texts in list(keys.items())[:12]:
            print("  [%s] %s: %s" % (where, key, texts[0][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        sys.exit(1)
    if os.path.exists(rep):
        os.unlink(rep)
    print("OK property=%s obligations=%d configurations=%d functions=%d wall=%.1fs" % (prop, ck.obligations, ck.scen, len(ck.funcs), wall))
    sys.exit(0)
