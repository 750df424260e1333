"""Abstract values of the value-flow engine (all immutable)."""
import poly as P
from poly import Poly, Top, isnum


class Mat:
    __slots__ = ("r", "c", "d", "l")

    def __init__(self, r, c, d, l=None):
        self.r, self.c, self.d = r, c, d
        self.l = l if l is not None else [None] * len(d)

    def g(self, i, j):
        return self.d[i * self.c + j]

    def __repr__(self):
        return "Mat%dx%d[%s]" % (self.r, self.c, ", ".join(P.pstr(x, 60) if not isinstance(x, bool) else str(x) for x in self.d[:24]))


class Obj:
    __slots__ = ("t", "f")

    def __init__(self, t, f):
        self.t, self.f = t, f

    def __repr__(self):
        return "%s{%s}" % (self.t, ", ".join("%s=%r" % kv for kv in self.f.items()))

    def with_(self, k, v):
        f = dict(self.f)
        f[k] = v
        return Obj(self.t, f)


class Vec:
    """std::vector / std::list / initializer_list / std::array"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = tuple(v)

    def __repr__(self):
        return "Vec%r" % (self.v,)


class Arr:
    """C array, sparse"""
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        self.n, self.d = n, d or {}


class MapV:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def keys(self):
        try:
            return sorted(self.d)
        except TypeError:
            return list(self.d)


class Ref:
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def sub(self, *el):
        return Ref(self.cell, self.path + el)

    def __eq__(self, o):
        return isinstance(o, Ref) and o.cell == self.cell and o.path == self.path

    def __hash__(self):
        return hash((self.cell, self.path))

    def __repr__(self):
        return "Ref(%s,%s)" % (self.cell, self.path)


class Ptr:
    __slots__ = ("ref",)

    def __init__(self, ref):
        self.ref = ref

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.ref == self.ref

    def __hash__(self):
        return hash(("ptr", self.ref))

    def __repr__(self):
        return "Ptr(%r)" % (self.ref,)


NULL = Ptr(None)


class It:
    __slots__ = ("ref", "i", "kind")

    def __init__(self, ref, i, kind="vec"):
        self.ref, self.i, self.kind = ref, i, kind


class FnV:
    __slots__ = ("u", "n")

    def __init__(self, u, n):
        self.u, self.n = u, n

    def __eq__(self, o):
        return isinstance(o, FnV) and o.u == self.u

    def __hash__(self):
        return hash(self.u)

    def __repr__(self):
        return "Fn(%s)" % self.n


class Clo:
    __slots__ = ("u", "caps", "this", "specs")

    def __init__(self, u, caps, this, specs=()):
        self.u, self.caps, self.this, self.specs = u, caps, this, specs


class MPtr:
    """pointer to a data member"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, MPtr) and self.n == o.n

    def __hash__(self):
        return hash(self.n)


class Bound:
    """std::bind: a callable and its arguments, Hold(i) for the placeholders"""
    __slots__ = ("f", "args")

    def __init__(self, f, args):
        self.f, self.args = f, args


class Hold:
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i


class Gam:
    """gated merge of two values of different shape"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "(%s ? %r : %r)" % (self.c, self.a, self.b)


class Tri:
    """triangular view of a matrix (reference or value)"""
    __slots__ = ("m", "upper", "unit")

    def __init__(self, m, upper, unit=False):
        self.m, self.upper, self.unit = m, upper, unit


class Comma:
    __slots__ = ("ref", "r", "c", "h")

    def __init__(self, ref, r, c, h):
        self.ref, self.r, self.c, self.h = ref, r, c, h


class Wise:
    __slots__ = ("ref", "val", "ax")

    def __init__(self, ref, val, ax):
        self.ref, self.val, self.ax = ref, val, ax


class Inserter:
    __slots__ = ("ref",)

    def __init__(self, ref):
        self.ref = ref


class Str(str):
    pass


class Void:
    def __repr__(self):
        return "void"


VOID = Void()


# ---------------------------------------------------------------- conditions
class Atom:
    __slots__ = ("kind", "p", "key", "name")

    def __init__(self, kind, p, key, name):
        self.kind, self.p, self.key, self.name = kind, p, key, name

    def __repr__(self):
        if self.kind == "gt":
            return P.pstr(self.p, 120) + " > 0"
        if self.kind == "eq":
            return P.pstr(self.p, 120) + " == 0"
        return self.name

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Atom) and o.key == self.key


_ATOMS = {}


def mkatom(kind, p, name=None):
    k = (kind, p.key() if p is not None else name)
    a = _ATOMS.get(k)
    if a is None:
        a = _ATOMS[k] = Atom(kind, p, k, name)
    return a


def reset():
    _ATOMS.clear()


class B:
    """boolean expression over atoms: ('a', atom) ('!', b) ('&', a, b) ('|', a, b)"""
    __slots__ = ("op", "x", "y")

    def __init__(self, op, x, y=None):
        self.op, self.x, self.y = op, x, y

    def __repr__(self):
        if self.op == "a":
            return repr(self.x)
        if self.op == "!":
            return "!(%r)" % self.x
        return "(%r %s %r)" % (self.x, self.op, self.y)

    def key(self):
        if self.op == "a":
            return ("a", self.x.key)
        return (self.op, self.x.key(), self.y.key() if self.y is not None else None)


def bnot(b):
    if isinstance(b, bool):
        return not b
    if isinstance(b, Top):
        return b
    if b.op == "!":
        return b.x
    return B("!", b)


def band(a, b):
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    if isinstance(a, Top):
        return a
    if isinstance(b, Top):
        return b
    return B("&", a, b)


def bor(a, b):
    if isinstance(a, bool):
        return True if a else b
    if isinstance(b, bool):
        return True if b else a
    if isinstance(a, Top):
        return a
    if isinstance(b, Top):
        return b
    return B("|", a, b)


def bite(at, a, b):
    """if atom then a else b"""
    c = B("a", at)
    if a is True and b is False:
        return c
    if a is False and b is True:
        return bnot(c)
    return bor(band(c, a), band(bnot(c), b))


def first_atom(b):
    while True:
        if isinstance(b, bool) or isinstance(b, Top):
            return None
        if b.op == "a":
            return b.x
        b = b.x


def brestrict(b, at, v):
    if isinstance(b, (bool, Top)):
        return b
    if b.op == "a":
        return v if b.x == at else b
    if b.op == "!":
        return bnot(brestrict(b.x, at, v))
    if b.op == "&":
        return band(brestrict(b.x, at, v), brestrict(b.y, at, v))
    return bor(brestrict(b.x, at, v), brestrict(b.y, at, v))


def gamma_syms(p):
    if not isinstance(p, Poly):
        return []
    out = []
    for m in p.t:
        for s, _ in m:
            if P.SYMS[s].kind == "gamma" and s not in out:
                out.append(s)
    return out


def _norm(p):
    lm = max(p.t)
    return P.scale(p, 1.0 / abs(p.t[lm]))


def gt0(p):
    p = P.num(p)
    if isinstance(p, Top):
        return p
    if isnum(p):
        return p > 0
    g = gamma_syms(p)
    if g:
        s = g[0]
        at, a, b = P.SYMS[s].args
        return bite(at, gt0(P.subst(p, {s: a})), gt0(P.subst(p, {s: b})))
    sg = P.sign(p)
    if sg is not None:
        return sg > 0
    if P.nonneg(P.neg(p)):
        return False
    return B("a", mkatom("gt", _norm(p)))


def eq0(p):
    p = P.num(p)
    if isinstance(p, Top):
        return p
    if isnum(p):
        return p == 0
    g = gamma_syms(p)
    if g:
        s = g[0]
        at, a, b = P.SYMS[s].args
        return bite(at, eq0(P.subst(p, {s: a})), eq0(P.subst(p, {s: b})))
    if P.nonzero(p):
        return False
    q = _norm(p)
    if q.t[max(q.t)] < 0:
        q = P.neg(q)
    return B("a", mkatom("eq", q))


def opaque(name):
    return B("a", mkatom("s", None, name))


def gpoly(at, a, b):
    """scalar gamma node"""
    a, b = P.num(a), P.num(b)
    if isinstance(a, Top):
        return a
    if isinstance(b, Top):
        return b
    d = P.sub(a, b)
    if isnum(d) and abs(d) <= 1e-14:
        return a
    if isinstance(d, Poly) and at.kind == "gt":
        dn = _norm(d)
        if dn.key() == at.key[1]:
            return P.maxv(a, b)
        if P.neg(dn).key() == at.key[1]:
            return P.minv(a, b)
    ps = P.sign(a) == 1 and P.sign(b) == 1
    return P.atom("gamma", (at, a, b), (at.key, P.key(a), P.key(b)), pos=ps)


def veq(a, b):
    """syntactic equality of abstract values"""
    if a is b:
        return True
    if type(a) is not type(b):
        if isinstance(a, (int, float, Poly)) and isinstance(b, (int, float, Poly)):
            return P.key(a) == P.key(b)
        return False
    if isinstance(a, (bool, str)):
        return a == b
    if isinstance(a, (int, float, Poly)):
        return P.key(a) == P.key(b)
    if isinstance(a, Mat):
        return a.r == b.r and a.c == b.c and all(veq(x, y) for x, y in zip(a.d, b.d))
    if isinstance(a, Obj):
        return a.t == b.t and a.f.keys() == b.f.keys() and all(veq(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Vec):
        return len(a.v) == len(b.v) and all(veq(x, y) for x, y in zip(a.v, b.v))
    if isinstance(a, Arr):
        return a.n == b.n and a.d.keys() == b.d.keys() and all(veq(a.d[k], b.d[k]) for k in a.d)
    if isinstance(a, MapV):
        return a.d.keys() == b.d.keys() and all(veq(a.d[k], b.d[k]) for k in a.d)
    if isinstance(a, (Ref, Ptr, FnV, MPtr)):
        return a == b
    if isinstance(a, Clo):
        return a.u == b.u and a.caps == b.caps
    if isinstance(a, It):
        return a.ref == b.ref and a.i == b.i
    if isinstance(a, B):
        return a.key() == b.key()
    if isinstance(a, Void):
        return True
    return False


def gval(at, a, b):
    if a is b:
        return a
    if isinstance(a, Top):
        return a
    if isinstance(b, Top):
        return b
    if isinstance(a, (bool, B)) and isinstance(b, (bool, B)):
        if veq(a, b):
            return a
        return bite(at, a, b)
    if isinstance(a, (int, float, Poly)) and isinstance(b, (int, float, Poly)) and not isinstance(a, bool) and not isinstance(b, bool):
        return gpoly(at, a, b)
    if isinstance(a, Mat) and isinstance(b, Mat) and a.r == b.r and a.c == b.c:
        return Mat(a.r, a.c, [gval(at, x, y) for x, y in zip(a.d, b.d)],
                   [y if y is not None else x for x, y in zip(a.l, b.l)])
    if isinstance(a, Obj) and isinstance(b, Obj) and a.t == b.t and a.f.keys() == b.f.keys():
        return Obj(a.t, {k: gval(at, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Vec) and isinstance(b, Vec) and len(a.v) == len(b.v):
        return Vec(gval(at, x, y) for x, y in zip(a.v, b.v))
    if isinstance(a, Arr) and isinstance(b, Arr) and a.n == b.n and a.d.keys() == b.d.keys():
        return Arr(a.n, {k: gval(at, a.d[k], b.d[k]) for k in a.d})
    if veq(a, b):
        return a
    return Gam(at, a, b)
