"""Scalar abstract domain: Laurent polynomials over interned value numbers.

A scalar is a Python number (constant) or a Poly: a finite map
monomial -> coefficient, where a monomial is a sorted tuple of (symbol, exponent).
Symbols are *value numbers*: program inputs, or interned applications of an
uninterpreted operator (sqrt, norm, inverse, min, abs, gamma, ...) to values of
the domain.  Two expressions that are equal as polynomials over their value
numbers get the same normal form.
"""
import math


class Sym:
    __slots__ = ("id", "name", "kind", "args", "pos", "nonzero")

    def __init__(self, i, name, kind, args, pos, nonzero):
        self.id, self.name, self.kind, self.args = i, name, kind, args
        self.pos, self.nonzero = pos, nonzero


SYMS = []
_BYKEY = {}


POSREG = set()   # keys of sums of squares known not to vanish
EPS = []         # symbol of the machine epsilon, when it is treated as an infinitesimal
SIGNSUB = {}     # symbol -> polynomial in positive symbols: known relations between the inputs


def reset():
    SYMS.clear()
    _BYKEY.clear()
    SIGNSUB.clear()
    POSREG.clear()
    EPS.clear()
    CAP.clear()


def sym(name, pos=False, nonzero=False):
    k = ("in", name)
    if k in _BYKEY:
        return _BYKEY[k]
    s = Sym(len(SYMS), name, "in", (), pos, pos or nonzero)
    SYMS.append(s)
    p = Poly({((s.id, 1),): 1})
    _BYKEY[k] = p
    return p


_fresh = [0]


def fresh(kind, name, pos=False):
    _fresh[0] += 1
    s = Sym(len(SYMS), "%s#%d" % (name, _fresh[0]), kind, (), pos, pos)
    SYMS.append(s)
    return Poly({((s.id, 1),): 1})


def atom(kind, args, key, pos=False, nonzero=False):
    k = (kind, key)
    if k in _BYKEY:
        return _BYKEY[k]
    s = Sym(len(SYMS), kind, kind, args, pos, pos or nonzero)
    SYMS.append(s)
    p = Poly({((s.id, 1),): 1})
    _BYKEY[k] = p
    return p


REL = 1e-12


def addc(a, b):
    s = a + b
    if s == 0:
        return 0
    if abs(s) <= REL * max(abs(a), abs(b)):
        return 0
    return s


def mulmono(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] < y[0]:
            out.append(x)
            i += 1
        elif x[0] > y[0]:
            out.append(y)
            j += 1
        else:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


class Poly:
    __slots__ = ("t", "_k")

    def __init__(self, t):
        self.t = t
        self._k = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted((m, rnd(c)) for m, c in self.t.items()))
        return self._k

    def __repr__(self):
        return pstr(self)


class Top:
    """Unknown value, with the reason it is unknown."""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "TOP(%s)" % self.why


def rnd(c):
    if isinstance(c, int):
        return float(c) if abs(c) < 2 ** 53 else c
    if c == 0 or math.isinf(c) or math.isnan(c):
        return c
    return float("%.9e" % c)


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def key(x):
    if isinstance(x, Poly):
        return x.key()
    if isinstance(x, bool):
        x = int(x)
    if isnum(x):
        return (((), rnd(x)),) if x != 0 else ()
    raise TypeError(x)


def mk(t):
    if not t:
        return 0
    if len(t) == 1:
        m = next(iter(t))
        if m == ():
            return t[m]
    return Poly(t)


def terms(x):
    if isinstance(x, Poly):
        return x.t
    if x == 0:
        return {}
    return {(): x}


def num(x):
    if isinstance(x, bool):
        return int(x)
    return x


def add(a, b):
    a, b = num(a), num(b)
    if isnum(a) and isnum(b):
        return addc(a, b)
    if isinstance(a, Top):
        return a
    if isinstance(b, Top):
        return b
    if isnum(a) and a == 0:
        return b
    if isnum(b) and b == 0:
        return a
    ta, tb = terms(a), terms(b)
    if len(ta) < len(tb):
        ta, tb = tb, ta
    r = dict(ta)
    for m, c in tb.items():
        o = r.get(m)
        if o is None:
            r[m] = c
        else:
            s = addc(o, c)
            if s == 0:
                del r[m]
            else:
                r[m] = s
    return mk(r)


def neg(a):
    a = num(a)
    if isnum(a):
        return -a
    if isinstance(a, Top):
        return a
    return Poly({m: -c for m, c in a.t.items()})


def sub(a, b):
    return add(a, neg(b))


def scale(a, k):
    if k == 0:
        return 0
    if isnum(a):
        return a * k
    return Poly({m: c * k for m, c in a.t.items()})


def _reduce(m, c):
    """rewrite monomials with even powers of square-root value numbers and
    inverse/product pairs"""
    return None


CAP = []    # bound on the work of one product; values beyond it are unknown


def mul(a, b):
    a, b = num(a), num(b)
    if isinstance(a, Top):
        return b if (isnum(b) and b == 0) else a
    if isinstance(b, Top):
        return a if (isnum(a) and a == 0) else b
    if isnum(a) and isnum(b):
        return a * b
    if isnum(a):
        return scale(b, a)
    if isnum(b):
        return scale(a, b)
    ta, tb = a.t, b.t
    if CAP and len(ta) * len(tb) > CAP[0]:
        return Top("expression too large")
    r = {}
    for m, c in ta.items():
        for n, d in tb.items():
            q = mulmono(m, n)
            v = c * d
            o = r.get(q)
            if o is None:
                r[q] = v
            else:
                s = addc(o, v)
                if s == 0:
                    del r[q]
                else:
                    r[q] = s
    # sqrt(p)^2 -> p
    for m in list(r):
        for (s, e) in m:
            if (e >= 2 or e <= -2) and SYMS[s].kind == "sqrt":
                return _sqrt_reduce(r)
    return mk(r)


def _sqrt_reduce(r):
    out = 0
    for m, c in r.items():
        acc = {tuple(): c}
        p = mk(acc)
        for (s, e) in m:
            if SYMS[s].kind == "sqrt" and (e >= 2 or e <= -2):
                k = int(abs(e) // 2)
                base = SYMS[s].args[0]
                f = powi(base, k)
                if e < 0:
                    f = inv(f)
                p = mul(p, f)
                rest = e - (2 * k if e > 0 else -2 * k)
                if rest:
                    p = mul(p, Poly({((s, rest),): 1}))
            else:
                p = mul(p, Poly({((s, e),): 1}))
        out = add(out, p)
    return out


def sumsq(p):
    """a sum of squares, as far as its form shows"""
    return nonneg(p)


def follows(kind, b, pos, non):
    """b != 0 (or b >= 0) follows from: every one of pos is > 0, every one of non is != 0"""
    gp, gn = set(), set()

    def add1(q, positive):
        """a quantity known to be > 0, or != 0, and what follows for its factors"""
        q = num(q)
        if not isinstance(q, Poly):
            return
        (gp if positive else gn).add(norm1(q).key())
        gn.add(norm1(neg(q)).key())
        gn.add(norm1(q).key())
        if len(q.t) == 1:
            (m, c), = q.t.items()
            for s, e in m:
                gn.add(mk({((s, 1),): 1}).key())
                y = SYMS[s]
                if y.kind in ("sqrt", "abs"):
                    add1(y.args[0], y.kind == "sqrt")
    for q in pos:
        add1(q, True)
    for q in non:
        add1(q, False)
    if known1(b, gp, gn, kind):
        return True
    for q in pos:
        if nonneg(sub(b, q)) or kind == "divisor" and nonneg(sub(neg(b), q)):
            return True
    return False


def norm1(q):
    """the same up to a positive factor"""
    lc = abs(q.t[max(q.t)])
    q = scale(q, 1.0 / lc) if lc != 1 else q
    g = common([q])
    return mul(q, _mono(g, -1)) if g and len(q.t) > 1 else q


def known1(b, gp, gn, kind):
    b = num(b)
    if isnum(b):
        return b != 0 if kind == "divisor" else b >= 0
    k = norm1(b).key()
    if k in gp or kind == "divisor" and k in gn:
        return True
    if len(b.t) == 1:
        (m, c), = b.t.items()
        if kind == "radicand":
            return c > 0 and all(SYMS[s].pos or e % 2 == 0 for s, e in m)
        for s, e in m:
            y = SYMS[s]
            if y.pos or y.nonzero or mk({((s, 1),): 1}).key() in gn:
                continue
            if y.kind in ("sqrt", "abs") and known1(y.args[0], gp, gn, kind):
                continue
            return False
        return True
    return False


WATCH = None        # told about the divisors and radicands of the analysed program


def divisor(b):
    if WATCH is not None:
        WATCH("divisor", num(b))


def radicand(b):
    if WATCH is not None:
        WATCH("radicand", num(b))


def powi(a, k):
    if k < 0:
        return inv(powi(a, -k))
    r = 1
    while k > 0:
        if k & 1:
            r = mul(r, a)
        a = mul(a, a) if k > 1 else a
        k >>= 1
    return r


def inv(b):
    b = num(b)
    if isnum(b):
        if b == 0:
            return float("inf")
        return 1.0 / b
    if isinstance(b, Top):
        return b
    if len(b.t) == 1:
        (m, c), = b.t.items()
        return mk({tuple((s, -e) for s, e in m): 1.0 / c if c != 1 else 1})
    # normalise: leading coefficient 1
    lm = max(b.t)
    lc = b.t[lm]
    bb = scale(b, 1.0 / lc)
    return scale(atom("inv", (bb,), bb.key(), pos=sign(bb) == 1, nonzero=True), 1.0 / lc)


def div(a, b):
    a, b = num(a), num(b)
    if isnum(a) and isnum(b):
        if b == 0:
            return float("inf") if a > 0 else (float("-inf") if a < 0 else float("nan"))
        q = a / b
        return q
    if isinstance(a, Top):
        return a
    if isinstance(b, Top):
        return b
    if isnum(a) and a == 0:
        return 0
    if isinstance(a, Poly) and isinstance(b, Poly) and len(b.t) > 1:
        q = exactdiv(a, b)
        if q is not None:
            return q
    return mul(a, inv(b))


def exactdiv(a, b, limit=2000):
    """exact multivariate division when the leading terms divide out"""
    lb = max(b.t)
    cb = b.t[lb]
    ilb = tuple((s, -e) for s, e in lb)
    q = 0
    r = a
    n = 0
    seen = set()
    while not isnum(r) or r != 0:
        n += 1
        if n > limit or isnum(r):
            return None
        lr = max(r.t)
        if lr in seen:
            return None
        seen.add(lr)
        tm = mulmono(lr, ilb)
        tmp = mk({tm: r.t[lr] / cb})
        q = add(q, tmp)
        r2 = sub(r, mul(tmp, b))
        if not isnum(r2) and len(r2.t) > len(r.t) + len(b.t):
            return None
        r = r2
        if n > 40 and len(terms(r)) >= len(a.t):
            return None
    return q


def subst(p, table, memo=None):
    """substitute symbol ids by values (recursively inside atoms is not done)"""
    if not isinstance(p, Poly):
        return p
    out = 0
    for m, c in p.t.items():
        r = c
        for s, e in m:
            if s in table:
                v = table[s]
                if e > 0:
                    r = mul(r, powi(v, e)) if isinstance(e, int) else Top("pow")
                else:
                    r = mul(r, powi(inv(v), -e))
            else:
                r = mul(r, Poly({((s, e),): 1}))
        out = add(out, r)
    return out


def sign(p):
    """1 if provably > 0, -1 if provably < 0, 0 if zero, None unknown"""
    p = num(p)
    if isinstance(p, Top):
        return None
    if isnum(p):
        if math.isnan(p):
            return None
        return 1 if p > 0 else (-1 if p < 0 else 0)
    if EPS:
        deg = {}
        for m, c in p.t.items():
            deg.setdefault(sum(e for s, e in m if s in EPS), {})[m] = c
        if len(deg) > 1:
            return sign(mk(deg[min(deg)]))
    if POSREG:
        if p.key() in POSREG:
            return 1
        if neg(p).key() in POSREG:
            return -1
    if any(SYMS[s].kind == "inv" and SYMS[s].pos for m in p.t for s, _ in m) and len(p.t) > 1:
        q = clear_inverses(p)
        return sign(q) if not (isinstance(q, Poly) and any(SYMS[s].kind == "inv" for m in q.t for s, _ in m)) else None
    sg = _sign(p)
    if sg is None and SIGNSUB:
        q = _signsub(p)
        if q is not None:
            return sign_plain(q)
    return sg


def _signsub(p):
    if not any(s in SIGNSUB for m in p.t for s, _ in m):
        return None
    # clear negative powers of the substituted (positive) symbols first
    g = {}
    for m in p.t:
        for s, e in m:
            if s in SIGNSUB and e < 0:
                g[s] = max(g.get(s, 0), -e)
    if g:
        p = mul(p, _mono(g))
    return subst(p, SIGNSUB)


def sign_plain(p):
    p = num(p)
    if isnum(p):
        return 1 if p > 0 else (-1 if p < 0 else 0)
    return _sign(p)


def _sign(p):
    sg, strict = None, False
    for m, c in p.t.items():
        one = True
        for s, e in m:
            if not SYMS[s].pos and e % 2 != 0:
                return None
            if not SYMS[s].pos and not SYMS[s].nonzero:
                one = False
        k = 1 if c > 0 else -1
        if sg is None:
            sg = k
        elif sg != k:
            return None
        strict = strict or one
    return sg if strict else None


def nonneg(p):
    """provably >= 0"""
    p = num(p)
    if isnum(p):
        return p >= 0
    if isinstance(p, Top):
        return False
    if SIGNSUB:
        q = _signsub(p)
        if q is not None:
            p = num(q)
            if isnum(p):
                return p >= 0
    for m, c in p.t.items():
        if c < 0:
            return False
        for s, e in m:
            if not SYMS[s].pos and e % 2 != 0:
                return False
    return True


def nonzero(p):
    p = num(p)
    if isnum(p):
        return p != 0
    if isinstance(p, Top):
        return False
    s = sign(p)
    if s in (1, -1):
        return True
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return all(SYMS[s].nonzero for s, e in m)
    return False


def common(ps, even=False):
    """(monomial of positive symbols dividing every term of every p, its inverse)"""
    g = None
    for p in ps:
        for m in terms(p):
            d = {s: e for s, e in m if SYMS[s].pos}
            if g is None:
                g = d
            else:
                for s in list(g):
                    e = d.get(s, 0)
                    if (g[s] > 0) != (e > 0) or e == 0:
                        del g[s]
                    else:
                        g[s] = min(g[s], e) if e > 0 else max(g[s], e)
                for s, e in d.items():
                    pass
            if not g:
                return None
    if not g:
        return None
    if even:
        g = {s: (e // 2 * 2 if e > 0 else -(-e // 2 * 2)) for s, e in g.items()}
        g = {s: e for s, e in g.items() if e}
        if not g:
            return None
    return g


def _mono(g, k=1):
    return Poly({tuple(sorted((s, e * k) for s, e in g.items())): 1})


def sqrt(p):
    p = num(p)
    if isinstance(p, Top):
        return p
    if isnum(p):
        return math.sqrt(p) if p >= 0 else float("nan")
    if len(p.t) > 1:
        g = common([p], even=True)
        if g:
            h = {s: e // 2 if e > 0 else -(-e // 2) for s, e in g.items()}
            return mul(_mono(h), sqrt(mul(p, _mono(g, -1))))
        lc = abs(p.t[max(p.t)])
        if abs(lc - 1) > 1e-15:
            return scale(sqrt(scale(p, 1.0 / lc)), math.sqrt(lc))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c > 0 and all(e % 2 == 0 and SYMS[s].pos for s, e in m):
            return mk({tuple((s, e // 2) for s, e in m): math.sqrt(c)})
    return atom("sqrt", (p,), p.key(), pos=sign(p) == 1)


def norm(ps):
    """euclidean norm of a list of values, without expanding the squares"""
    nz = [p for p in ps if not (isnum(p) and p == 0)]
    for p in nz:
        if isinstance(p, Top):
            return p
    if all(isnum(p) for p in nz):
        return math.sqrt(sum(p * p for p in nz))
    if len(nz) == 1:
        return absv(nz[0])
    g = common(nz)
    if g:
        m = _mono(g, -1)
        return mul(_mono(g), norm([mul(p, m) for p in nz]))
    if sum(len(terms(p)) for p in nz) <= 12:
        s = 0
        for p in nz:
            s = add(s, mul(p, p))
        return sqrt(s)
    ks = []
    for p in nz:
        k1, k2 = key(p), key(neg(p))
        ks.append(min(k1, k2))
    return atom("norm", tuple(nz), tuple(sorted(ks)), pos=any(nonzero(p) for p in nz))


def absv(p):
    p = num(p)
    if isinstance(p, Top):
        return p
    if isnum(p):
        return abs(p)
    s = sign(p)
    if s == 1 or nonneg(p):
        return p
    if s == -1:
        return neg(p)
    q = neg(p)
    if q.key() < p.key():
        p = q
    return atom("abs", (p,), p.key(), pos=nonzero(p))


def squares(ps):
    """sum of the squares of the given values, remembered as positive when one of them cannot vanish"""
    r = 0
    for p in ps:
        r = add(r, mul(p, p))
    if isinstance(r, Poly) and any(nonzero(p) for p in ps):
        POSREG.add(r.key())
    return r


def minv(a, b):
    return _mm("min", a, b)


def maxv(a, b):
    return _mm("max", a, b)


def _mm(kind, a, b):
    a, b = num(a), num(b)
    if isinstance(a, Top):
        return a
    if isinstance(b, Top):
        return b
    if isnum(a) and isnum(b):
        return min(a, b) if kind == "min" else max(a, b)
    for x, y in ((a, b), (b, a)):
        if isnum(x) and math.isinf(x) and not isnum(y):
            return y if (kind == "min") == (x > 0) else x
    d = sub(a, b)
    s = sign(d)
    if s is not None:
        if kind == "min":
            return a if s <= 0 else b
        return a if s >= 0 else b
    if nonneg(d):
        return b if kind == "min" else a
    if nonneg(neg(d)):
        return a if kind == "min" else b
    parts = {}
    for x in (a, b):
        if isinstance(x, Poly) and len(x.t) == 1:
            (m, c), = x.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and SYMS[m[0][0]].kind == kind:
                for y in SYMS[m[0][0]].args:
                    parts[key(y)] = y
                continue
        parts[key(x)] = x
    ks = tuple(sorted(parts))
    ps = tuple(parts[k] for k in ks)
    pos = (all(sign(p) == 1 for p in ps) if kind == "min" else any(sign(p) == 1 for p in ps))
    return atom(kind, ps, ks, pos=pos)


def func(name, *args):
    args = tuple(num(a) for a in args)
    for a in args:
        if isinstance(a, Top):
            return a
    if all(isnum(a) for a in args):
        try:
            f = {"pow": math.pow, "sin": math.sin, "cos": math.cos, "floor": math.floor,
                 "ceil": math.ceil, "trunc": math.trunc, "exp": math.exp, "log": math.log,
                 "round": lambda x: math.floor(x + 0.5) if x >= 0 else -math.floor(-x + 0.5),
                 "fmod": math.fmod, "atan2": math.atan2, "acos": math.acos,
                 "mod": lambda x, y: int(math.fmod(x, y)),
                 "idiv": lambda x, y: int(x / y)}.get(name)
            if f:
                return f(*args)
        except (ValueError, ZeroDivisionError, OverflowError):
            return Top("domain error in %s" % name)
    return atom("fn:" + name, args, tuple(key(a) for a in args))


def syms_of(p, acc=None, deep=True):
    if acc is None:
        acc = set()
    if isinstance(p, Poly):
        for m in p.t:
            for s, _ in m:
                if s not in acc:
                    acc.add(s)
                    if deep:
                        for a in SYMS[s].args:
                            if isinstance(a, Poly):
                                syms_of(a, acc, deep)
    return acc


def clear_inverses(p):
    """multiply by denominators so that no 'inv' atom remains: returns a
    polynomial that is zero iff p is (denominators are non-zero)"""
    for _ in range(8):
        if not isinstance(p, Poly):
            return p
        den = {}
        for m in p.t:
            for s, e in m:
                if SYMS[s].kind == "inv":
                    den[s] = max(den.get(s, 0), e)
        if not den:
            return p
        out = 0
        for m, c in p.t.items():
            left = dict(den)
            r = c
            rest = []
            for s, e in m:
                if s in left:
                    left[s] -= e
                else:
                    rest.append((s, e))
            r = mk({tuple(rest): c})
            for s, k in left.items():
                if k:
                    r = mul(r, powi(SYMS[s].args[0], k))
            out = add(out, r)
        p = out
    return p


def is_zero(p, tol=1e-7, ref=None):
    """p == 0 up to relative coefficient tolerance w.r.t. the magnitudes in ref"""
    p = num(p)
    if isinstance(p, Top):
        return False
    if isnum(p):
        m = max([1.0] + [abs(c) for c in terms(ref).values()]) if ref is not None and not isinstance(ref, Top) else 1.0
        return abs(p) <= tol * m
    if ref is None:
        return all(abs(c) <= tol for c in p.t.values())
    rt = terms(ref)
    big = max([abs(c) for c in rt.values()] + [1e-300])
    for m, c in p.t.items():
        r = abs(rt.get(m, 0))
        if abs(c) > tol * (r if r else min(big, 1.0)):
            return False
    return True


def equal(a, b, tol=1e-7):
    a, b = num(a), num(b)
    if isinstance(a, Top) or isinstance(b, Top):
        return False
    d = sub(a, b)
    if is_zero(d, tol, b):
        return True
    if isinstance(d, Poly):
        if any(SYMS[s].kind == "inv" for m in d.t for s, _ in m):
            d2 = clear_inverses(d)
            return is_zero(d2, tol)
    return False


def mstr(m):
    out = []
    for s, e in m:
        n = sstr(s)
        out.append(n if e == 1 else "%s^%s" % (n, e))
    return "*".join(out)


def sstr(s):
    S = SYMS[s]
    if S.kind in ("in",) or not S.args:
        return S.name
    if S.kind == "gamma":
        return "(%s ? %s : %s)" % (S.args[0], pstr(S.args[1], 60), pstr(S.args[2], 60))
    return "%s(%s)" % (S.kind, ", ".join(pstr(a, 60) for a in S.args))


def pstr(p, lim=300):
    p = num(p)
    if isinstance(p, Top):
        return repr(p)
    if isnum(p):
        return "%.12g" % p if isinstance(p, float) else str(p)
    out = []
    for m in sorted(p.t):
        c = p.t[m]
        cs = "%.9g" % c
        ms = mstr(m)
        if not ms:
            out.append(cs)
        elif c == 1:
            out.append(ms)
        elif c == -1:
            out.append("-" + ms)
        else:
            out.append(cs + "*" + ms)
    s = " + ".join(out).replace("+ -", "- ")
    return s if len(s) <= lim else s[:lim] + "..."
