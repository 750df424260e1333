"""Comparison of the rows a program hands to the solver with the rows the
problem requires, up to positive scaling, order and repetition."""
import poly as P
import values as V
from poly import Poly, Top, isnum
from engine import Abort

PRUNE = 1e-9


def factor(s):
    """value numbers that may be divided out of a row: positive inputs, and lengths of
    vectors (the rows they scale are not zero: generic cone rows, see DESIGN.md)"""
    return P.SYMS[s].pos or P.SYMS[s].kind in ("sqrt", "norm")


def canon(p):
    """canonical representative of a polynomial up to a positive monomial factor:
    (frozenset of monomials, dict monomial -> coefficient); None for the zero polynomial"""
    p = P.num(p)
    if isinstance(p, Top):
        raise Abort("row coefficient is unknown: %s" % p.why)
    if isnum(p):
        if abs(p) < 1e-12:
            return None
        return frozenset([()]), {(): 1.0 if p > 0 else -1.0}
    t = p.t
    big = max(abs(c) for c in t.values())
    t = {m: c for m, c in t.items() if abs(c) > PRUNE * big}
    # common exponent of every positive symbol
    lo = None
    for m in t:
        d = {s: e for s, e in m if factor(s)}
        if lo is None:
            lo = d
        else:
            for s in list(lo):
                lo[s] = min(lo[s], d.get(s, 0))
            for s, e in d.items():
                if s not in lo:
                    lo[s] = min(0, e)
    f = tuple(sorted((s, -e) for s, e in lo.items() if e))
    t = {P.mulmono(m, f): c for m, c in t.items()}
    lead = max(t)
    k = abs(t[lead])
    t = {m: c / k for m, c in t.items()}
    return frozenset(t), t


def close(a, b, tol):
    if a is None or b is None:
        return a is b
    if a[0] != b[0]:
        return False
    return all(abs(a[1][m] - b[1][m]) <= tol * max(1.0, abs(b[1][m])) for m in a[1])


def prop(p, q, tol=1e-7):
    """p = lambda q with lambda > 0 (lambda any positive value of the domain)?"""
    cp, cq = canon(p), canon(q)
    return close(cp, cq, tol)


def rowpoly(A, b, i, xs, extra=None):
    p = P.neg(b.d[i])
    for j, x in enumerate(xs):
        p = P.add(p, P.mul(A.d[i * A.c + j], x))
    return p


def gamma_atoms(p, acc):
    for s in V.gamma_syms(p):
        at, a, b = P.SYMS[s].args
        acc.add(at)
        gamma_atoms(a, acc)
        gamma_atoms(b, acc)
    return acc


def resolve(p, asg):
    for _ in range(200):
        g = V.gamma_syms(p)
        if not g:
            return p
        tab = {}
        for s in g:
            at, a, b = P.SYMS[s].args
            tab[s] = a if asg[at] else b
        p = P.subst(p, tab)
    raise Abort("gated value does not resolve")


def consistent(asg):
    """no contradictory sign decisions in a case"""
    for at, v in asg.items():
        if at.kind == "gt" and v:
            n = V.gt0(P.neg(at.p))
            if isinstance(n, V.B) and n.op == "a" and asg.get(n.x) is True:
                return False
            e = V.eq0(at.p)
            if isinstance(e, V.B) and e.op == "a" and asg.get(e.x) is True:
                return False
    return True


def cases(polys):
    """groups of row indices that share gated values, with the decisions of each"""
    n = len(polys)
    sets = [gamma_atoms(p, set()) for p in polys]
    groups = []
    for i in range(n):
        if not sets[i]:
            groups.append(([i], set()))
            continue
        idx, ats = [i], set(sets[i])
        rest = []
        for gi, ga in groups:
            if ga & ats:
                idx += gi
                ats |= ga
            else:
                rest.append((gi, ga))
        groups = rest + [(idx, ats)]
    return groups


def assignments(atoms, limit=10):
    atoms = sorted(atoms, key=lambda a: repr(a.key))
    if len(atoms) > limit:
        # too many cases: the generic one and its neighbours only; whoever asked must not conclude "holds"
        base = {a: False for a in atoms}
        for flip in [None] + atoms:
            asg = dict(base)
            if flip is not None:
                asg[flip] = True
            if consistent(asg):
                yield asg
        raise Truncated("more than %d undecided conditions guard one value" % limit)
    for k in range(1 << len(atoms)):
        asg = {a: bool(k >> i & 1) for i, a in enumerate(atoms)}
        if consistent(asg):
            yield asg


class Truncated(Abort):
    pass


class Report:
    def __init__(self):
        self.bad = []
        self.obligations = 0

    def fail(self, what, loc, detail=""):
        self.bad.append((what, loc, detail))


def match_rows(actual, locs, expected, rep, scen, tol=1e-7, allow_const=True, tolabs=None):
    """actual: polynomials a.x-b ; expected: oracle.Row list"""
    table = {}
    canons = []
    for i, e in enumerate(expected):
        c = canon(e.p)
        canons.append(c)
        if c is not None:
            table.setdefault(c[0], []).append(i)
    groups = cases(actual)
    hitall = [False] * len(expected)
    unmatched = []
    guarded = 0
    trunc = []

    def every(ats):
        try:
            yield from assignments(ats)
        except Truncated as e:
            trunc.append(e)
    for idx, ats in groups:
        first = None
        for asg in (every(ats) if ats else [{}]):
            if asg:
                guarded += 1
            hits = set()
            for i in idx:
                p = resolve(actual[i], asg) if asg else actual[i]
                c = canon(p)
                if c is None:
                    continue                      # 0 <= 0
                if c[0] == frozenset([()]) and c[1][()] < 0:
                    continue                      # 0.x <= positive constant
                h = [k for k in table.get(c[0], []) if close(c, canons[k], tol)]
                if not h:
                    unmatched.append((i, p, asg))
                hits.update(h)
            first = hits if first is None else first & hits
        for k in first or ():
            hitall[k] = True
    rep.obligations += len(expected) + len(actual)
    for k, e in enumerate(expected):
        if canons[k] is None:
            continue
        if e.req and not hitall[k]:
            if e.alt is not None and any(hitall[j] for j in e.alt):
                continue
            rep.fail("%s: the constraint for %s is missing from the problem handed to the solver" % (scen, e.what), None,
                     "expected  %s <= 0" % P.pstr(e.p, 200))
    for i, p, asg in unmatched:
        rep.fail("%s: row %d of the problem handed to the solver is none of the required constraints" % (scen, i), locs[i],
                 "row  %s <= 0%s" % (P.pstr(p, 200), "  (when %s)" % asg if asg else ""))
    if trunc and not rep.bad:
        raise trunc[0]
    return hitall
