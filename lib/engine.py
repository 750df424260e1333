"""Value-flow analysis over the type-resolved program exported by astx.

One forward pass over the (structured) control flow of an entry function with
its callees' bodies in line.  The abstract state maps memory cells to values of
a polynomial value-numbering domain (poly.py, values.py); branches whose
condition is a constant of the analysed configuration are followed
(conditional constant propagation), at any other branch both sides are analysed
and the states are merged by gated (gamma) nodes.  No solver is involved and
nothing is executed.
"""
import json
import math
import sys

import poly as P
from poly import Poly, Top, isnum
from values import *
import values as V

sys.setrecursionlimit(20000)


class Abort(Exception):
    """the analysis cannot go on (unsupported construct): never a violation"""


class Endless(Abort):
    """every condition on the way is decided, and the loop is never left"""

    def __init__(self, loc, fn):
        Exception.__init__(self, "no end to the loop at %s in %s" % (loc, fn))
        self.loc, self.fn = loc, fn


class AbsThrow(Exception):
    val = None

    def __init__(self, typ, msg, loc):
        Exception.__init__(self, "%s: %s at %s" % (typ, msg, loc))
        self.typ, self.msg, self.loc = typ, msg, loc


class Program:
    def __init__(self, files):
        self.tus = []
        self.funcs = {}
        self.globals = {}
        self.records = {}
        self.enums = {}
        self.byname = {}
        for f in files:
            with open(f) as fh:
                d = json.load(fh)
            tu = len(self.tus)
            self.tus.append(d["types"])
            for u, fn in d["functions"].items():
                fn["tu"] = tu
                fn["u"] = u
                if u not in self.funcs:
                    self.funcs[u] = fn
                    self.byname.setdefault(fn["n"], []).append(fn)
            for k, g in d["globals"].items():
                g["tu"] = tu
                self.globals[(tu, g["d"])] = g
            for u, r in d["records"].items():
                r["tu"] = tu
                self.records.setdefault(u, r)
            for u, e in d["enums"].items():
                self.enums.setdefault(u, e)
        self.enumval = {}
        for e in self.enums.values():
            for x in e["v"]:
                self.enumval[e["n"] + "::" + x["n"]] = x["v"]
                self.enumval.setdefault(x["n"], x["v"])

    def fn(self, name, nparams=None, pred=None):
        c = self.byname.get(name, [])
        if nparams is not None:
            c = [f for f in c if len(f["p"]) == nparams]
        if pred:
            c = [f for f in c if pred(f)]
        return c


class Frame:
    def __init__(self, fn, tu):
        self.fn, self.tu = fn, tu
        self.lazy = {}
        self.env = {}
        self.this = None
        self.rets = []
        self.loops = []
        self.cleanups = []      # locals with a destructor that does something, in order of construction


class Loop:
    def __init__(self):
        self.brk = []
        self.cont = []


EIGEN_DENSE = {"Matrix", "Array"}
def isview(t):
    return t["k"] == "rec" and t["n"].startswith("Eigen::") and t["n"].split("::")[-1] in EIGEN_VIEWS


EIGEN_VIEWS = {"Block", "VectorBlock", "Transpose", "Ref", "Map", "Diagonal", "NoAlias", "ArrayWrapper", "MatrixWrapper"}


EIGEN_LAZY = {"CwiseBinaryOp", "CwiseUnaryOp", "CwiseTernaryOp", "Product", "Replicate", "Reverse", "Select"}


def islazy(t):
    return t["k"] == "rec" and t["n"].startswith("Eigen::") and t["n"].split("::")[-1] in EIGEN_LAZY


def calls_repo(e, prog):
    """the expression calls a function that is analysed (its result would be stored, not evaluated again)"""
    if isinstance(e, dict):
        if isinstance(e.get("fn"), dict) and e["fn"].get("u") in prog.funcs or e.get("k") == "LambdaExpr":
            return True
        return any(calls_repo(x, prog) for x in e.values() if isinstance(x, (dict, list)))
    if isinstance(e, list):
        return any(calls_repo(x, prog) for x in e)
    return False


def uses_locals(e):
    """the expression refers to parameters, local variables or the current object"""
    if isinstance(e, dict):
        if e.get("dk") in ("local", "parm", "binding") or "CXXThisExpr" in (e.get("k"), e.get("K")):
            return True
        return any(uses_locals(x) for x in e.values() if isinstance(x, (dict, list)))
    if isinstance(e, list):
        return any(uses_locals(x) for x in e)
    return False


class Goto(Exception):
    def __init__(self, label, path, depth):
        self.label, self.path, self.depth = label, path, depth


def has_label(s, n):
    while isinstance(s, dict) and s.get("k") == "LabelStmt":
        if s["n"] == n:
            return True
        s = s["body"]
    return False


class Engine:
    def __init__(self, prog, hooks=None, maxunroll=400, maxfork=12):
        self.prog = prog
        self.hooks = hooks or {}
        self.mem = {}
        self.gmem = {}
        self.ncell = 0
        self.caught = []
        self.path = []          # list of (atom, bool)
        self.pathd = {}
        self.frames = []
        self.checked = 0        # accesses whose bounds were decided
        self.events = []        # (kind, loc, message)
        self.throws = []        # conditional throws (path, typ, msg, loc)
        self.unmodelled = {}
        self.calls = 0
        self.stmts = 0
        self.visited = {}       # function -> count
        self.gcells = {}
        self.loc = ("?", 0)
        self.maxunroll, self.maxfork = maxunroll, maxfork
        self.trace = []
        self.globwrites = []    # (location, function) of writes to objects of static storage
        self.globcells = {}     # cell -> (name, set of "r"/"w")
        self.deleters = {}     # what ends the life of an object owned by a smart pointer
        self.history = []       # static locals initialised from run time values
        self.gset = set()
        self.depth = 0
        self._tcache = {}
        self.assume_nz = ()     # prefixes of generic inputs: a polynomial that depends on one is not zero
        self.assumed = {}
        self.divs = {}          # divisions and roots not known to be defined
        self.ndiv = 0

    # ------------------------------------------------------------ utilities
    def here(self):
        return "%s:%d" % (self.loc[0], self.loc[1])

    def endless(self, loc):
        if self.unmodelled:
            raise Abort("loop bound at %s" % loc)
        raise Endless(loc, self.frames[-1].fn["n"])

    def repeats(self, label):
        """a jump back to a state the analysis has been in already: no variable has changed since"""
        sn = getattr(self, "_snap", None)
        if sn is not None and sn[0] == (label, len(self.frames), len(self.path)):
            o, n = sn[1], self.mem
            # the cell that told the states apart last time first
            c = sn[2]
            if (c is None or c in n and self.alike(o[c], n[c])):
                for k, v in o.items():
                    if k not in n or not self.alike(v, n[k]):
                        sn[2] = k
                        break
                else:
                    return True
        if self.jumps & (self.jumps - 1) == 0 or sn is None:
            self._snap = [(label, len(self.frames), len(self.path)), dict(self.mem), None]
        return False

    def alike(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, Mat):
            return (a.r, a.c) == (b.r, b.c) and all(self.alike(x, y) for x, y in zip(a.d, b.d))
        if isinstance(a, Obj):
            return a.t == b.t and a.f.keys() == b.f.keys() and all(self.alike(v, b.f[k]) for k, v in a.f.items())
        if isinstance(a, Vec):
            return len(a.v) == len(b.v) and all(self.alike(x, y) for x, y in zip(a.v, b.v))
        if isinstance(a, (bool, int, float, str)):
            return a == b
        if isinstance(a, Poly):
            return P.equal(a, b)
        if isinstance(a, Ptr) and a.ref is not None and b.ref is not None:
            return a.ref.cell == b.ref.cell and a.ref.path == b.ref.path
        return False

    def event(self, kind, msg):
        self.events.append((kind, self.here(), msg, self.frames[-1].fn["n"] if self.frames else ""))

    # ------------------------------------------------ divisions and roots
    def watch(self, kind, b):
        """a division by b or a square root of b, on the current path"""
        self.ndiv += 1
        if isnum(b):
            if not (b == 0 if kind == "divisor" else b < 0):
                return
        elif isinstance(b, Poly):
            if P.nonzero(b) if kind == "divisor" else P.nonneg(b) or P.sumsq(b):
                return
            if self.facts_give(kind, b):
                return
        k = (kind, self.here(), P.key(b) if not isinstance(b, Top) else b.why)
        if k not in self.divs:
            self.divs[k] = (b, list(self.path), self.frames[-1].fn["n"] if self.frames else "")

    def facts_give(self, kind, b):
        pos, non = [], []
        for at, v in self.path:
            if at.kind == "gt" and v:
                q = at.p
                c = q.t.get((), 0) if isinstance(q, Poly) else 0
                q = P.num(P.sub(q, c)) if c < 0 else q
                pos.append(q)
            elif at.kind == "eq" and not v:
                non += [at.p, P.neg(at.p)]
        return P.follows(kind, b, pos, non)

    def ty(self, tid, tu=None):
        if tid is None or tid < 0:
            return {"k": "other", "s": "?"}
        return self.prog.tus[self.frames[-1].tu if tu is None else tu][tid]

    def new(self, val):
        self.ncell += 1
        self.mem[self.ncell] = val
        return Ref(self.ncell)

    # ------------------------------------------------------------ store
    def getel(self, v, el):
        if isinstance(v, Gam):
            c = self.pathd.get(v.c)
            if c is not None:
                return self.getel(v.a if c else v.b, el)
            return gval(v.c, self.getel(v.a, el), self.getel(v.b, el))
        if isinstance(v, Top):
            return v
        k = el[0]
        if k == "f":
            if isinstance(v, Obj):
                if el[1] in v.f:
                    return v.f[el[1]]
                return Top("field %s of %s" % (el[1], v.t))
            return Top("field %s of non-object" % el[1])
        self.checked += 1
        if k == "i":
            i = el[1]
            if isinstance(v, Vec):
                if 0 <= i < len(v.v):
                    return v.v[i]
                self.event("oob", "index %d outside container of size %d" % (i, len(v.v)))
                return Top("out of bounds")
            if isinstance(v, Arr):
                if 0 <= i < v.n:
                    if i in v.d:
                        return v.d[i]
                    return P.fresh("uninit", "uninit@%s" % self.here())
                self.event("oob", "index %d outside array of size %d" % (i, v.n))
                return Top("out of bounds")
            if isinstance(v, Mat):
                if 0 <= i < len(v.d):
                    return v.d[i]
                self.event("oob", "index %d outside matrix storage of size %d" % (i, len(v.d)))
                return Top("out of bounds")
            return Top("index of non-container")
        if k == "ic":
            # position in column-major storage
            i = el[1]
            if isinstance(v, Mat):
                if 0 <= i < len(v.d):
                    return v.d[(i % v.r) * v.c + i // v.r]
                self.event("oob", "index %d outside matrix storage of size %d" % (i, len(v.d)))
                return Top("out of bounds")
            return self.getel(v, ("i", i))
        if k == "map":
            return self.mapped(v, el)
        if k == "rs":
            if isinstance(v, Mat):
                s = mat_t(v)
                return mat_t(Mat(el[2], el[1], s.d, s.l))
            return Top("reshaped non-matrix")
        if k == "e":
            _, i, j = el
            if isinstance(v, Mat):
                if 0 <= i < v.r and 0 <= j < v.c:
                    return v.d[i * v.c + j]
                self.event("oob", "coefficient (%d,%d) outside %dx%d matrix" % (i, j, v.r, v.c))
                return P.fresh("uninit", "oob@%s" % self.here())
            return Top("coefficient of non-matrix")
        if k == "b":
            _, r0, c0, nr, nc = el
            if isinstance(v, Mat):
                if r0 < 0 or c0 < 0 or nr < 0 or nc < 0 or r0 + nr > v.r or c0 + nc > v.c:
                    self.event("oob", "block (%d,%d)+(%dx%d) outside %dx%d matrix" % (r0, c0, nr, nc, v.r, v.c))
                    nr, nc = max(nr, 0), max(nc, 0)
                    return Mat(nr, nc, [P.fresh("uninit", "oob@%s" % self.here()) for _ in range(nr * nc)])
                d, l = [], []
                for i in range(r0, r0 + nr):
                    d.extend(v.d[i * v.c + c0:i * v.c + c0 + nc])
                    l.extend(v.l[i * v.c + c0:i * v.c + c0 + nc])
                return Mat(nr, nc, d, l)
            return Top("block of non-matrix")
        if k == "T":
            if isinstance(v, Mat):
                return mat_t(v)
            return Top("transpose of non-matrix")
        if k == "diag":
            if isinstance(v, Mat):
                ix = diag_ix(v, el)
                return Mat(len(ix), 1, [v.d[q] for q in ix], [v.l[q] for q in ix])
            return Top("diagonal")
        if k == "mk":
            if isinstance(v, MapV):
                ks = v.keys()
                if 0 <= el[1] < len(ks):
                    kk = ks[el[1]]
                    return Obj("std::pair", {"first": kk, "second": v.d[kk]})
                self.event("oob", "dereference of the past-the-end iterator of a map")
                return Top("end iterator")
            return Top("map element")
        if k == "k":
            if isinstance(v, MapV) and el[1] in v.d:
                return v.d[el[1]]
            return Top("map key")
        raise Abort("getel %r" % (el,))

    def mapped(self, v, el):
        """matrix over consecutive numbers: ("map", element kind, offset, rows, columns, row step, column step)"""
        _, kind, off, r, c, si, sj = el
        return Mat(r, c, [self.getel(v, (kind, off + i * si + j * sj)) for i in range(r) for j in range(c)])

    def wise_els(self, w):
        m = w.val
        return [("b", i, 0, 1, m.c) for i in range(m.r)] if w.ax == "r" else [("b", 0, j, m.r, 1) for j in range(m.c)]

    def setel(self, v, el, x):
        if isinstance(v, Gam):
            c = self.pathd.get(v.c)
            if c is not None:
                return self.setel(v.a if c else v.b, el, x)
            return gval(v.c, self.setel(v.a, el, x), self.setel(v.b, el, x))
        if isinstance(v, Top):
            return v
        k = el[0]
        if k == "f":
            if isinstance(v, Obj):
                return v.with_(el[1], x)
            return Top("field store")
        if k == "i":
            i = el[1]
            if isinstance(v, Vec):
                if 0 <= i < len(v.v):
                    return Vec(v.v[:i] + (x,) + v.v[i + 1:])
                self.event("oob", "write at index %d outside container of size %d" % (i, len(v.v)))
                return v
            if isinstance(v, Arr):
                if 0 <= i < v.n:
                    d = dict(v.d)
                    d[i] = x
                    return Arr(v.n, d)
                self.event("oob", "write at index %d outside array of size %d" % (i, v.n))
                return v
            if isinstance(v, Mat):
                if 0 <= i < len(v.d):
                    d, l = list(v.d), list(v.l)
                    d[i] = x
                    l[i] = self.loc
                    return Mat(v.r, v.c, d, l)
                self.event("oob", "write at index %d outside matrix storage of size %d" % (i, len(v.d)))
                return v
            return Top("index store")
        if k == "ic":
            i = el[1]
            if isinstance(v, Mat):
                if 0 <= i < len(v.d):
                    return self.setel(v, ("e", i % v.r, i // v.r), x)
                self.event("oob", "write at index %d outside matrix storage of size %d" % (i, len(v.d)))
                return v
            return self.setel(v, ("i", i), x)
        if k == "map":
            if isinstance(x, Mat):
                if (x.r, x.c) != (el[3], el[4]):
                    if (x.c, x.r) != (el[3], el[4]) or 1 not in (x.r, x.c):
                        self.event("dim", "assignment of a %dx%d value to a %dx%d map" % (x.r, x.c, el[3], el[4]))
                        return v
                    x = Mat(el[3], el[4], x.d, x.l)
                for i in range(el[3]):
                    for j in range(el[4]):
                        v = self.setel(v, (el[1], el[2] + i * el[5] + j * el[6]), x.d[i * x.c + j])
                return v
            if isinstance(x, Gam):
                return gval(x.c, self.setel(v, el, x.a), self.setel(v, el, x.b))
            return Top("map store of %s" % type(x).__name__)
        if k == "rs":
            if isinstance(v, Mat) and isinstance(x, Mat):
                s = mat_t(x)
                return mat_t(Mat(v.c, v.r, s.d, s.l))
            return Top("reshaped store")
        if k == "e":
            _, i, j = el
            if isinstance(v, Mat):
                if 0 <= i < v.r and 0 <= j < v.c:
                    d, l = list(v.d), list(v.l)
                    d[i * v.c + j] = x
                    l[i * v.c + j] = self.loc
                    return Mat(v.r, v.c, d, l)
                self.event("oob", "write of coefficient (%d,%d) outside %dx%d matrix" % (i, j, v.r, v.c))
                return v
            return Top("coefficient store")
        if k == "b":
            _, r0, c0, nr, nc = el
            if isinstance(v, Mat):
                if not isinstance(x, Mat):
                    if isinstance(x, Gam):
                        return gval(x.c, self.setel(v, el, x.a), self.setel(v, el, x.b))
                    x = Mat(nr, nc, [x if isinstance(x, Top) else Top("store of %r" % type(x))] * (nr * nc))
                if r0 < 0 or c0 < 0 or nr < 0 or nc < 0 or r0 + nr > v.r or c0 + nc > v.c:
                    self.event("oob", "write of block (%d,%d)+(%dx%d) outside %dx%d matrix" % (r0, c0, nr, nc, v.r, v.c))
                    return v
                if (x.r, x.c) != (nr, nc):
                    if (x.c, x.r) == (nr, nc) and 1 in (nr, nc):
                        pass
                    else:
                        self.event("dim", "assignment of a %dx%d value to a %dx%d block" % (x.r, x.c, nr, nc))
                        return v
                d, l = list(v.d), list(v.l)
                q = 0
                for i in range(r0, r0 + nr):
                    for j in range(c0, c0 + nc):
                        d[i * v.c + j] = x.d[q]
                        l[i * v.c + j] = self.loc
                        q += 1
                return Mat(v.r, v.c, d, l)
            return Top("block store")
        if k == "T":
            if isinstance(v, Mat) and isinstance(x, Mat):
                return mat_t(x)
            return Top("transpose store")
        if k == "diag":
            if isinstance(v, Mat) and isinstance(x, Mat):
                d, l = list(v.d), list(v.l)
                ix = diag_ix(v, el)
                if len(ix) != len(x.d):
                    self.event("dim", "assignment of %d values to a diagonal of %d" % (len(x.d), len(ix)))
                    return v
                for i, q in enumerate(ix):
                    d[q] = x.d[i]
                    l[q] = self.loc
                return Mat(v.r, v.c, d, l)
            return Top("diag store")
        if k == "mk":
            if isinstance(v, MapV):
                ks = v.keys()
                if 0 <= el[1] < len(ks):
                    d = dict(v.d)
                    d[ks[el[1]]] = x.f["second"]
                    return MapV(d)
                return Top("map store")
            return Top("map store")
        if k == "k":
            d = dict(v.d)
            d[el[1]] = x
            return MapV(d)
        raise Abort("setel %r" % (el,))

    def load(self, r):
        v = self.mem.get(r.cell, None)
        if r.cell in self.gset:
            self.globcells.setdefault(r.cell, {}).setdefault("r", self.here())
        if v is None:
            v = self.gmem.get(r.cell, None)
        if v is None:
            self.event("dangling", "use of a dead object")
            return Top("dangling cell")
        for el in r.path:
            v = self.getel(v, el)
        if isinstance(v, Gam):
            v = self.pick(v)
        return v

    def pick(self, v):
        while isinstance(v, Gam):
            c = self.pathd.get(v.c)
            if c is None:
                return v
            v = v.a if c else v.b
        return v

    def store(self, r, x):
        if r.cell in self.gset:
            self.globwrites.append((self.here(), self.frames[-1].fn["n"] if self.frames else ""))
            self.globcells.setdefault(r.cell, {}).setdefault("w", self.here())
        if not r.path:
            if isinstance(x, Mat):
                x = Mat(x.r, x.c, x.d, [self.loc] * len(x.d)) if any(y is None for y in x.l) else x
            self.mem[r.cell] = x
            return
        root = self.mem.get(r.cell)
        if root is None:
            root = self.gmem.get(r.cell, Top("dangling"))
        self.mem[r.cell] = self._set(root, r.path, 0, x)

    def _set(self, v, path, k, x):
        if k == len(path) - 1:
            # resizing assignment of a whole dynamic matrix handled by caller
            return self.setel(v, path[k], x)
        sub = self.getel(v, path[k])
        return self.setel(v, path[k], self._set(sub, path, k + 1, x))

    def hidden_state(self):
        """why the outcome of this run can depend on earlier calls: [(location, message)]"""
        out = [(loc, "static variable %s keeps a value of the first call" % n) for loc, n in self.history]
        for c, d in self.globcells.items():
            if "r" in d and "w" in d:
                n = [self.prog.globals[k]["n"] for k, r in self.gcells.items() if r.cell == c]
                out.append((d["w"], "static variable %s is written here and read at %s" % (n[0] if n else "?", d["r"])))
        return out

    def rv(self, x):
        """value of an evaluation result"""
        if isinstance(x, Ref):
            return self.load(x)
        return x

    def lref(self, x):
        if isinstance(x, Ref):
            return x
        return self.new(x)

    # ------------------------------------------------------------ default values
    def uninit(self):
        return P.fresh("uninit", "uninit@%s" % self.here())

    def eigdims(self, t):
        a = t.get("a", [])
        return a[1]["i"], a[2]["i"]

    def default(self, t, tu, zero=False):
        k = t["k"]
        if k in ("int", "uint", "float", "enum"):
            return 0 if zero else self.uninit()
        if k == "bool":
            return False if zero else V.opaque("uninit@%s" % self.here())
        if k == "ptr":
            return NULL if zero else Top("uninitialised pointer")
        if k == "arr":
            n = t.get("z")
            if n is None:
                return Top("array of unknown size")
            et = self.prog.tus[tu][t["e"]]
            if zero:
                return Arr(n, {i: self.default(et, tu, True) for i in range(min(n, 64))})
            if et["k"] == "rec" or et["k"] == "arr":
                return Arr(n, {i: self.default(et, tu) for i in range(min(n, 4096))})
            return Arr(n)
        if k == "rec":
            n = t["n"]
            b = n.split("::")[-1]
            if n.startswith("Eigen::") and b in EIGEN_DENSE:
                r, c = self.eigdims(t)
                if r < 0 or c < 0:
                    return Mat(max(r, 0), max(c, 0), [])
                return Mat(r, c, [self.uninit() for _ in range(r * c)])
            if n in ("std::vector", "std::list", "std::deque", "std::initializer_list", "std::set", "std::multiset", "std::unordered_set", "std::stack", "std::queue"):
                return Vec(())
            if n == "std::array":
                et = self.prog.tus[tu][t["a"][0]["t"]]
                return Vec(self.default(et, tu) for _ in range(t["a"][1]["i"]))
            if n in ("std::map", "std::unordered_map"):
                return MapV({})
            if n == "std::pair":
                return Obj("std::pair", {"first": self.default(self.prog.tus[tu][t["a"][0]["t"]], tu, True),
                                         "second": self.default(self.prog.tus[tu][t["a"][1]["t"]], tu, True)})
            if n == "std::tuple":
                return Obj("std::tuple", {"_%d" % i: self.default(self.prog.tus[tu][x["t"]], tu, True) for i, x in enumerate(t["a"])})
            if n in ("std::shared_ptr", "std::unique_ptr", "boost::shared_ptr", "__gnu_cxx::__normal_iterator"):
                return NULL
            if "r" in t:
                return self.default_record(t)
            if n in self.hooks.get("@default", {}):
                return self.hooks["@default"][n](self, t)
            if b in ("basic_string", "basic_string_view"):
                return Str("")
            if n.startswith("ndcurves::"):
                return Obj(n, {"wps": Vec(()), "T_min_": 0, "T_max_": 1, "degree_": 0, "dim_": 0, "size_": 0, "mult_T_": 1})
            return Obj(n, {})
        if k in ("ref", "rref"):
            return Top("unbound reference")
        return Top("default of %s" % t.get("s"))

    def default_record(self, t):
        rec = self.prog.records.get(t["r"])
        if rec is None:
            return Top("unknown record")
        f = {}
        for bt in rec.get("b", []):
            b = self.default(self.prog.tus[rec["tu"]][bt], rec["tu"])
            if isinstance(b, Obj):
                f.update(b.f)
        for fd in rec["f"]:
            ft = self.prog.tus[rec["tu"]][fd["t"]]
            f[fd["n"]] = self.default(ft, rec["tu"])
        return Obj(rec["n"], f)

    # ------------------------------------------------------------ branching
    def decide(self, c):
        """value of a boolean under the current path: True/False/None"""
        c = self.boolv(c)
        while True:
            if isinstance(c, bool):
                return c, None
            if isinstance(c, Top):
                raise Abort("branch on unknown value (%s) at %s" % (c.why, self.here()))
            at = self.first_undecided(c)
            if isinstance(at, tuple):
                c = brestrict(c, at[0], at[1])
                continue
            if isinstance(at.p, Poly):
                self.unset(at.p, "condition on")
            return None, (c, at)

    def unset(self, p, what):
        """a value never written decides something"""
        if any(P.SYMS[i].kind == "uninit" for i in P.syms_of(p)):
            self.event("uninit", "%s a value that was never set (%s)" % (what, P.pstr(p)[:80]))

    def known(self, at):
        v = self.pathd.get(at)
        if v is not None:
            return v
        if at.kind == "eq" and self.assume_nz:
            for s in P.syms_of(at.p):
                nm = P.SYMS[s].name
                if P.SYMS[s].kind == "in" and nm.startswith(self.assume_nz):
                    self.assumed[self.here()] = self.assumed.get(self.here(), 0) + 1
                    return False
        if at.kind == "gt":
            n = V.gt0(P.neg(at.p))
            if isinstance(n, B) and n.op == "a":
                if self.pathd.get(n.x) is True:
                    return False
            e = V.eq0(at.p)
            if isinstance(e, B) and e.op == "a" and self.pathd.get(e.x) is True:
                return False
            if isinstance(n, B) and n.op == "a" and isinstance(e, B) and e.op == "a" and self.pathd.get(n.x) is False and self.pathd.get(e.x) is False:
                return True
        elif at.kind == "eq":
            for q in (at.p, P.neg(at.p)):
                g = V.gt0(q)
                if isinstance(g, B) and g.op == "a" and self.pathd.get(g.x) is True:
                    return False
        return None

    def first_undecided(self, c):
        at = first_atom(c)
        k = self.known(at)
        if k is not None:
            return (at, k)
        return at

    def boolv(self, c):
        if isinstance(c, (bool, B, Top)):
            return c
        if isinstance(c, Gam):
            c = self.pick(c)
            if isinstance(c, Gam):
                return bite(c.c, self.boolv(c.a), self.boolv(c.b))
            return self.boolv(c)
        if isinstance(c, (int, float, Poly)):
            return bnot(eq0(c))
        if isinstance(c, Ptr):
            return c.ref is not None
        if isinstance(c, (FnV, Clo)):
            return True
        if isinstance(c, Obj) and c.t == "std::optional":
            return "v" in c.f
        raise Abort("condition %r at %s" % (c, self.here()))

    def push(self, at, v):
        self.path.append((at, v))
        self.pathd[at] = v

    def popto(self, n):
        while len(self.path) > n:
            at, _ = self.path.pop()
            if not any(a == at for a, _ in self.path):
                self.pathd.pop(at, None)

    def merge_mem(self, at, m1, m2):
        if m1 is m2:
            return m1
        out = {}
        for k, a in m1.items():
            if k in m2:
                b = m2[k]
                out[k] = a if a is b else gval(at, a, b)
            else:
                out[k] = a
        for k, b in m2.items():
            if k not in m1:
                out[k] = b
        return out

    def branch(self, c, ft, ff):
        """run ft or ff (returning alive flags) under condition c; returns alive"""
        d, rest = self.decide(c)
        if d is True:
            return ft()
        if d is False:
            return ff()
        c, at = rest
        if len(self.path) > 60:
            raise Abort("too many undecided branches at %s" % self.here())
        base = len(self.path)
        mem0 = self.mem
        res = []
        thr = None
        for v in (True, False):
            self.mem = dict(mem0)
            self.push(at, v)
            try:
                alive = self.branch(brestrict(c, at, v), ft, ff)
            except AbsThrow as e:
                thr = e
                self.throws.append((list(self.path), e.typ, e.msg, e.loc))
                alive = False
            res.append((alive, self.mem, self.path[base + 1:]))
            self.popto(base)
        (a1, m1, p1), (a2, m2, p2) = res
        if a1 and a2:
            self.mem = self.merge_mem(at, m1, m2)
            return True
        if a1:
            self.mem = m1
            self.push(at, True)
            for x in p1:
                self.push(*x)
            return True
        if a2:
            self.mem = m2
            self.push(at, False)
            for x in p2:
                self.push(*x)
            return True
        self.mem = mem0
        if thr is not None and not self._pending(base):
            raise thr
        return False

    def _pending(self, base):
        f = self.frames[-1] if self.frames else None
        if f is None:
            return False
        if f.rets or any(l.brk or l.cont for l in f.loops):
            return True
        return False

    def merge_states(self, base, entries):
        """entries: list of (path suffix, value, mem). Sets self.mem and extends the path
        by the literals common to every entry; returns merged value"""
        while True:
            if len(entries) == 1:
                suf, val, mem = entries[0]
                for x in suf:
                    self.push(*x)
                self.mem = mem
                return val
            heads = {e[0][0] if e[0] else None for e in entries}
            if len(heads) == 1 and None not in heads:
                h = next(iter(heads))
                self.push(*h)
                entries = [(e[0][1:], e[1], e[2]) for e in entries]
                continue
            break
        val, mem = self._merge(entries)
        self.mem = mem
        return val

    def _merge(self, entries):
        if len(entries) == 1:
            return entries[0][1], entries[0][2]
        atoms = [e[0][0][0] for e in entries if e[0]]
        if not atoms:
            return entries[0][1], entries[0][2]
        at = atoms[0]
        yes = [(e[0][1:], e[1], e[2]) for e in entries if e[0] and e[0][0] == (at, True)]
        no = [(e[0][1:], e[1], e[2]) for e in entries if e[0] and e[0][0] == (at, False)]
        oth = [e for e in entries if not (e[0] and e[0][0][0] == at)]
        if oth:
            # not tree structured: entry without this literal applies to both
            yes += oth
            no += oth
        if not yes:
            return self._merge(no)
        if not no:
            return self._merge(yes)
        v1, m1 = self._merge(yes)
        v2, m2 = self._merge(no)
        return gval(at, v1, v2) if v1 is not None else None, self.merge_mem(at, m1, m2)

    # ------------------------------------------------------------ calls
    def call(self, fn, args, this=None, caps=None):
        """args: Ref or value per parameter (already converted).  Returns Ref or value"""
        self.calls += 1
        self.visited[fn["u"]] = self.visited.get(fn["u"], 0) + 1
        if self.depth > 150:
            if sum(1 for f in self.frames if f.fn is fn) > 100:
                self.endless(self.here())
            raise Abort("recursion too deep in %s" % fn["n"])
        fr = Frame(fn, fn["tu"])
        fr.pbase = len(self.path)
        tys = self.prog.tus[fn["tu"]]
        saveloc = self.loc
        self.frames.append(fr)
        self.depth += 1
        base = len(self.path)
        try:
            fr.this = this
            if caps:
                fr.env.update(caps)
            for p, a in zip(fn["p"], args):
                t = tys[p["t"]]
                if t["k"] in ("ref", "rref"):
                    fr.env[p["d"]] = a if isinstance(a, Ref) else self.new(a)
                elif isinstance(a, Ref) and isview(t):
                    fr.env[p["d"]] = a          # the view aliases its argument
                else:
                    v = self.rv(a)
                    fr.env[p["d"]] = self.new(self.convert(v, t, fn["tu"]))
            for p in fn["p"][len(args):]:
                if "de" in p:
                    fr.env[p["d"]] = self.new(self.convert(self.val(p["de"]), tys[p["t"]], fn["tu"]))
            if fn.get("ctor"):
                self.run_inits(fn, fr)
            alive = True
            try:
                alive = self.ex(fn["body"])
            except AbsThrow as e:
                self.cleanup(fr, 0)
                if not fr.rets:
                    raise
                self.throws.append((list(self.path), e.typ, e.msg, e.loc))
                alive = False
            ents = list(fr.rets)
            if alive:
                ents.append((self.path[base:], VOID, self.mem))
            if not ents:
                raise AbsThrow("unreachable", "no normal return from %s" % fn["n"], self.here())
            self.popto(base)
            if len(ents) > 1:
                rt = tys[fn["r"]] if fn["r"] >= 0 else None
                refs = {e[1] for e in ents if isinstance(e[1], Ref)}
                if len(refs) == 1 and all(isinstance(e[1], Ref) for e in ents):
                    r = next(iter(refs))
                    self.merge_states(base, [(e[0], VOID, e[2]) for e in ents])
                    return r
                es = []
                for suf, v, m in ents:
                    if isinstance(v, Ref):
                        sm = self.mem
                        self.mem = m
                        v = self.load(v)
                        self.mem = sm
                    es.append((suf, v, m))
                return self.merge_states(base, es)
            return self.merge_states(base, ents)
        finally:
            self.frames.pop()
            self.depth -= 1
            self.loc = saveloc

    def run_inits(self, fn, fr):
        self.loc = (fn["file"], fn["l"])
        for it in fn.get("init", []):
            if "f" in it:
                self.loc = (fn["file"], it["l"] or fn["l"])
                ref = fr.this.sub(("f", it["f"]))
                rec = self.record_of(fn)
                ft = None
                if rec:
                    for fd in rec["f"]:
                        if fd["n"] == it["f"]:
                            ft = self.prog.tus[rec["tu"]][fd["t"]]
                            ftu = rec["tu"]
                if it["e"] is None:
                    continue
                if it["e"]["k"] == "CXXConstructExpr" or it["e"]["k"] == "CXXTemporaryObjectExpr":
                    v = self.rv(self.ev(it["e"]))
                else:
                    v = self.ev(it["e"])
                    if ft is not None and ft["k"] in ("ref", "rref"):
                        v = Ptr(self.lref(v))
                    else:
                        v = self.rv(v)
                if ft is not None:
                    v = self.convert(v, ft, ftu)
                self.store(ref, v)
            elif "base" in it and it["e"] is not None:
                e = it["e"]
                if e["k"] == "CXXConstructExpr":
                    u = e["fn"]["u"]
                    if u in self.prog.funcs:
                        self.call(self.prog.funcs[u], [self.ev(a) for a in e["args"]], fr.this)
                        continue
                v = self.rv(self.ev(e))
                if isinstance(v, Obj):
                    cur = self.load(fr.this)
                    if isinstance(cur, Obj):
                        f = dict(cur.f)
                        f.update(v.f)
                        self.store(fr.this, Obj(cur.t, f))
            elif "deleg" in it:
                v = self.rv(self.ev(it["e"]))
                self.store(fr.this, v)

    def record_of(self, fn):
        t = self.prog.tus[fn["tu"]][fn["cls"]]
        return self.prog.records.get(t.get("r"))

    def convert(self, v, t, tu):
        """conversion on initialisation of an object of type t"""
        k = t["k"]
        if k == "rec" and isinstance(v, Mat):
            n = t["n"]
            if n.startswith("Eigen::") and n.split("::")[-1] in EIGEN_DENSE:
                r, c = self.eigdims(t)
                if r >= 0 and c >= 0 and (v.r, v.c) != (r, c):
                    if (v.c, v.r) == (r, c) and 1 in (r, c):
                        return Mat(r, c, v.d, v.l)
                    self.event("dim", "a %dx%d value initialises a %dx%d matrix" % (v.r, v.c, r, c))
                    return Mat(r, c, [self.uninit() for _ in range(r * c)])
                if r == 1 and v.c == 1 and v.r != 1:
                    return Mat(1, v.r, v.d, v.l)
                if c == 1 and v.r == 1 and v.c != 1:
                    return Mat(v.c, 1, v.d, v.l)
        if k in ("int", "uint") and isinstance(v, float):
            return int(v) if not (math.isinf(v) or math.isnan(v)) else Top("int of inf")
        if k in ("int", "uint") and isinstance(v, bool):
            return int(v)
        if k == "float" and isinstance(v, bool):
            return int(v)
        if k in ("int", "uint", "float", "enum") and isinstance(v, B):
            return self.b2n(v)
        if k == "bool" and not isinstance(v, (bool, B, Top)):
            return self.boolv(v)
        if k == "rec" and t["n"] == "std::optional" and not isinstance(v, (Top, Gam)):
            return self.optional(v, t, tu)
        return v

    def optional(self, v, t, tu):
        if isinstance(v, Obj) and v.t == "std::optional":
            return v
        if isinstance(v, Obj) and v.t == "std::nullopt_t":
            return Obj("std::optional", {})
        et = self.prog.tus[tu][t["a"][0]["t"]]
        return Obj("std::optional", {"v": self.convert(v, et, tu)})

    def b2n(self, b):
        if isinstance(b, bool):
            return int(b)
        if isinstance(b, Top):
            return b
        at = first_atom(b)
        return gpoly(at, self.b2n(brestrict(b, at, True)), self.b2n(brestrict(b, at, False)))

    # ------------------------------------------------------------ statements
    def ex(self, s):
        """execute statement; returns True if control can fall through"""
        if s is None:
            return True
        self.stmts += 1
        k = s["k"]
        if s.get("l"):
            self.loc = (self.frames[-1].fn["file"], s["l"])
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(s)
        if "t" in s:
            self.ev(s)
            return True
        raise Abort("statement %s at %s" % (k, self.here()))

    def s_CompoundStmt(self, s):
        fr = self.frames[-1]
        n = len(fr.cleanups)
        alive = True
        ch, i, nl = s["ch"], 0, len(fr.loops)
        while i < len(ch):
            try:
                if not self.ex(ch[i]):
                    alive = False
                    break
            except Goto as g:
                # labels are targets of jumps out of nested statements, back or forth
                k = [j for j, c in enumerate(ch) if has_label(c, g.label)]
                if not k:
                    raise
                if g.depth != len(self.frames) or g.path != len(self.path):
                    raise Abort("goto under an undecided condition at %s" % self.here())
                del fr.loops[nl:]
                if len(fr.cleanups) > n:
                    self.cleanup(fr, n)
                    del fr.cleanups[n:]
                self.jumps = getattr(self, "jumps", 0) + 1
                if self.jumps > 5000 or self.repeats(g.label):
                    self.endless(self.here())
                i = k[0]
                continue
            i += 1
        if len(fr.cleanups) > n:
            if alive:
                self.cleanup(fr, n)
            del fr.cleanups[n:]
        return alive

    def cleanup(self, fr, n):
        """destructors of the locals registered since n, last first"""
        for f in reversed(fr.cleanups[n:]):
            f()

    def destructor(self, t, tu):
        """the destructor of a class type when the repository defines one that does something"""
        if t["k"] != "rec" or "r" not in t:
            return None
        ix = getattr(self.prog, "dtors", None)
        if ix is None:
            ix = self.prog.dtors = {}
            for f in self.prog.funcs.values():
                if f.get("dtor") and f.get("body") and f["body"].get("ch"):
                    ix[self.prog.tus[f["tu"]][f["cls"]]["n"]] = f
        return ix.get(t["n"])

    def s_NullStmt(self, s):
        return True

    def s_LabelStmt(self, s):
        return self.ex(s["body"])

    def s_DeclStmt(self, s):
        for d in s["ds"]:
            self.decl(d)
        return True

    def decl(self, d):
        fr = self.frames[-1]
        t = self.ty(d["t"])
        if d.get("static"):
            k = (fr.tu, d["d"])
            g = self.prog.globals.get(k)
            if g is None:
                raise Abort("static variable %s without a definition" % d.get("n"))
            if k not in self.gcells and uses_locals(g.get("init")):
                self.ncell += 1
                r = Ref(self.ncell)
                v = self.rv(self.ev(g["init"]))
                self.gmem[r.cell] = self.convert(v, t, fr.tu)
                self.gcells[k] = r
                self.gset.add(r.cell)
                self.history.append((self.here(), g["n"]))
            fr.env[d["d"]] = self.gref(k)
            return
        if t["k"] in ("ref", "rref"):
            v = self.ev(d["e"])
            fr.env[d["d"]] = v if isinstance(v, Ref) else self.new(v)
        elif "e" in d and d["e"] is not None:
            own = self.new(VOID) if t.get("n") == "std::function" else None
            if own is not None:
                fr.env[d["d"]] = own
            v = self.ev(d["e"])
            if own is None and islazy(t) and not isinstance(v, Ref) and not calls_repo(d["e"], self.prog):
                # an Eigen expression keeps references to its operands: it is evaluated where it is used
                fr.env[d["d"]] = self.new(v)
                fr.lazy[d["d"]] = d["e"]
                return
            if own is not None:
                self.mem[own.cell] = self.rv(v)
            elif isinstance(v, Ref) and isview(t):
                fr.env[d["d"]] = v
            else:
                v = self.rv(v)
                if t["k"] == "arr" and isinstance(v, Vec):
                    n = t.get("z") or len(v.v)
                    dd = {i: x for i, x in enumerate(v.v)}
                    for i in range(len(v.v), min(n, 4096)):
                        dd[i] = 0
                    v = Arr(n, dd)
                fr.env[d["d"]] = self.new(self.convert(v, t, fr.tu))
        else:
            fr.env[d["d"]] = self.new(self.default(t, fr.tu))
        if t["k"] == "rec":
            dt = self.destructor(t, fr.tu)
            ref = fr.env[d["d"]]
            if dt is not None:
                fr.cleanups.append(lambda: self.call(dt, [], ref))
            elif t["n"] in ("std::unique_ptr", "std::shared_ptr"):
                fr.cleanups.append(lambda: self.release(ref))
        if "bind" in d:
            self.bind(d, fr.env[d["d"]], t)

    def release(self, ref):
        """end of life of a smart pointer that was given a deleter"""
        p = self.load(ref)
        d = self.deleters.get(p.ref) if isinstance(p, Ptr) and p.ref is not None else None
        if d is not None:
            self.apply(d, [p])

    def bind(self, d, ref, t):
        fr = self.frames[-1]
        for i, b in enumerate(d["bind"]):
            v = self.load(ref)
            v = self.pick(v)
            if isinstance(v, Obj):
                ks = list(v.f)
                r = ref.sub(("f", ks[i]))
            else:
                r = ref.sub(("i", i))
            fr.env[b["d"]] = r
            if "hd" in b:
                fr.env[b["hd"]] = r

    def s_IfStmt(self, s):
        if s.get("init"):
            self.ex(s["init"])
        if s.get("cv"):
            self.ex(s["cv"])
        c = self.cond(s["c"])
        return self.branch(c, lambda: self.ex(s["a"]), lambda: self.ex(s.get("b")))

    def cond(self, e):
        return self.boolv(self.rv(self.ev(e)))

    def s_ReturnStmt(self, s):
        fr = self.frames[-1]
        v = VOID
        if s.get("e") is not None:
            v = self.ev(s["e"])
            rt = self.ty(fr.fn["r"])
            if rt["k"] in ("ref", "rref"):
                v = v if isinstance(v, Ref) else self.new(v)
            elif isinstance(v, Ref) and isview(rt):
                pass
            else:
                v = self.convert(self.rv(v), rt, fr.tu)
        if fr.cleanups:
            self.cleanup(fr, 0)
        fr.rets.append((self.path[self.framebase(fr):], v, self.mem))
        return False

    def framebase(self, fr):
        # path length at entry of the frame: recorded lazily
        return getattr(fr, "pbase", 0)

    def loop(self, step):
        """step(first) -> (alive, cont): one evaluation of condition+body+inc.
        Generic driver used by all loop forms."""

    def s_ForStmt(self, s):
        if s["init"]:
            self.ex(s["init"])
        return self._loop(s.get("c"), s["body"], s.get("inc"), False)

    def s_WhileStmt(self, s):
        return self._loop(s["c"], s["body"], None, False, s.get("cv"))

    def s_DoStmt(self, s):
        return self._loop(s["c"], s["body"], None, True)

    def _loop(self, c, body, inc, post, cv=None):
        fr = self.frames[-1]
        lp = Loop()
        lp.base = len(self.path)
        fr.loops.append(lp)
        forks = 0
        n = 0
        alive = True
        at = self.here()
        try:
            try:
                first = True
                while True:
                    n += 1
                    if n > self.maxunroll * 50:
                        if forks:
                            raise Abort("loop bound at %s" % self.here())
                        self.endless(at)
                    if cv:
                        self.ex(cv)
                    if c is not None and not (post and first):
                        cc = self.cond(c)
                        d, rest = self.decide(cc)
                        if d is False:
                            break
                        if d is None:
                            forks += 1
                            if forks > self.maxfork:
                                raise Abort("loop with undecided bound at %s" % self.here())
                            # exit under !cc : record as break
                            def leave():
                                lp.brk.append((self.path[lp.base:], None, self.mem))
                                return False
                            alive = self.branch(cc, lambda: True, leave)
                            if not alive:
                                break
                    first = False
                    alive = self._body(lp, body)
                    if not alive:
                        break
                    if inc is not None:
                        self.ev(inc)
            except AbsThrow as e:
                if not (lp.brk):
                    raise
                self.throws.append((list(self.path), e.typ, e.msg, e.loc))
                alive = False
        finally:
            fr.loops.pop()
        ents = list(lp.brk)
        if alive:
            ents.append((self.path[lp.base:], None, self.mem))
        if not ents:
            return False
        self.popto(lp.base)
        self.merge_states(lp.base, ents)
        return True

    def _body(self, lp, body):
        cb = len(self.path)
        lp.cont = []
        lp.cbase = cb
        alive = self.ex(body)
        if lp.cont:
            ents = [(suf, None, m) for suf, m in lp.cont]
            lp.cont = []
            if alive:
                ents.append((self.path[cb:], None, self.mem))
            self.popto(cb)
            self.merge_states(cb, ents)
            alive = True
        return alive

    def s_CXXForRangeStmt(self, s):
        fr = self.frames[-1]
        r = self.ev(s["range"])
        v = self.rv(r)
        if isinstance(v, Gam):
            raise Abort("range over merged container at %s" % self.here())
        if isinstance(v, Top):
            raise Abort("range over unknown container (%s) at %s" % (v.why, self.here()))
        els = None
        if isinstance(v, V.Wise):
            r = v.ref if v.ref is not None else self.new(v.val)
            els = self.wise_els(v)
        if not isinstance(r, Ref):
            r = self.new(v)
        n = len(els) if els is not None else self.csize(v)
        t = self.ty(s["var"]["t"])
        lp = Loop()
        lp.base = len(self.path)
        fr.loops.append(lp)
        alive = True
        try:
            try:
                for i in range(n):
                    el = els[i] if els is not None else ("mk", i) if isinstance(v, MapV) else ("ic", i) if isinstance(v, Mat) else ("i", i)
                    er = r.sub(el)
                    if t["k"] in ("ref", "rref") or isview(t):
                        fr.env[s["var"]["d"]] = er
                    else:
                        fr.env[s["var"]["d"]] = self.new(self.convert(self.load(er), t, fr.tu))
                    if "bind" in s["var"]:
                        self.bind(s["var"], fr.env[s["var"]["d"]], t)
                    alive = self._body(lp, s["body"])
                    if not alive:
                        break
            except AbsThrow as e:
                if not lp.brk:
                    raise
                self.throws.append((list(self.path), e.typ, e.msg, e.loc))
                alive = False
        finally:
            fr.loops.pop()
        ents = list(lp.brk)
        if alive:
            ents.append((self.path[lp.base:], None, self.mem))
        if not ents:
            return False
        self.popto(lp.base)
        self.merge_states(lp.base, ents)
        return True

    def csize(self, v):
        if isinstance(v, Vec):
            return len(v.v)
        if isinstance(v, MapV):
            return len(v.d)
        if isinstance(v, Mat):
            return len(v.d)
        if isinstance(v, Arr):
            return v.n
        raise Abort("size of %r" % type(v))

    def s_BreakStmt(self, s):
        lp = self.frames[-1].loops[-1]
        lp.brk.append((self.path[lp.base:], None, self.mem))
        return False

    def s_ContinueStmt(self, s):
        lps = self.frames[-1].loops
        i = len(lps) - 1
        while getattr(lps[i], "switch", False):
            i -= 1
        lp = lps[i]
        lp.cont.append((self.path[lp.cbase:], self.mem))
        return False

    def s_SwitchStmt(self, s):
        fr = self.frames[-1]
        if s.get("init"):
            self.ex(s["init"])
        if s.get("cv"):
            self.ex(s["cv"])
        v = self.rv(self.ev(s["c"]))
        items = s["body"]["ch"] if s["body"]["k"] == "CompoundStmt" else [s["body"]]
        # flatten case labels
        flat = []
        labels = []
        for it in items:
            while it["k"] in ("CaseStmt", "DefaultStmt"):
                labels.append((it, len(flat)))
                it = it["body"]
                if it is None:
                    break
            if it is not None:
                flat.append(it)
        cases = [(self.rv(self.ev(c["e"])), i) for c, i in labels if c["k"] == "CaseStmt"]
        dflt = [i for c, i in labels if c["k"] == "DefaultStmt"]

        def run(i):
            lp = Loop()
            lp.switch = True
            lp.base = len(self.path)
            fr.loops.append(lp)
            alive = True
            try:
                for st in flat[i:]:
                    alive = self.ex(st)
                    if not alive:
                        break
            except AbsThrow as e:
                if not lp.brk:
                    raise
                self.throws.append((list(self.path), e.typ, e.msg, e.loc))
                alive = False
            finally:
                fr.loops.pop()
            ents = list(lp.brk)
            if alive:
                ents.append((self.path[lp.base:], None, self.mem))
            if not ents:
                return False
            self.popto(lp.base)
            self.merge_states(lp.base, ents)
            return True

        def chain(k):
            if k == len(cases):
                if dflt:
                    return run(dflt[0])
                return True
            cv, i = cases[k]
            return self.branch(self.cmp("==", v, cv), lambda: run(i), lambda: chain(k + 1))
        return chain(0)

    def s_CXXTryStmt(self, s):
        fr = self.frames[-1]
        n = len(fr.cleanups)
        nt = len(self.throws)
        try:
            r = self.ex(s["body"])
            for t in self.throws[nt:]:
                if any("t" not in h or self.catches(self.ty(h["t"]), t[1]) for h in s["h"]):
                    raise Abort("an exception that is thrown in some cases only is caught at %s" % self.here())
            return r
        except AbsThrow as e:
            self.cleanup(fr, n)
            del fr.cleanups[n:]
            for h in s["h"]:
                if "t" not in h or self.catches(self.ty(h["t"]), e.typ):
                    if "d" in h:
                        v = e.val
                        self.frames[-1].env[h["d"]] = self.new(Obj(v.t if isinstance(v, Obj) else "exception", dict(v.f if isinstance(v, Obj) else {}, what=Str(e.msg))) if v is None or isinstance(v, Obj) else v)
                    self.caught.append(e)
                    try:
                        return self.ex(h["body"])
                    finally:
                        self.caught.pop()
            raise

    def catches(self, t, typ):
        if t["k"] in ("ref", "rref"):
            t = self.ty(t["e"])
        n = t.get("n", t.get("s", "")).replace("const ", "")
        seen = set()
        while typ and typ not in seen:
            if n == typ:
                return True
            seen.add(typ)
            typ = self.exc_base(typ)
        return False

    EXC = {"std::invalid_argument": "std::logic_error", "std::domain_error": "std::logic_error", "std::length_error": "std::logic_error", "std::out_of_range": "std::logic_error",
           "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error", "std::underflow_error": "std::runtime_error",
           "std::bad_array_new_length": "std::bad_alloc"}

    def exc_base(self, n):
        """the base class of an exception class"""
        if n in self.EXC:
            return self.EXC[n]
        for rec in self.prog.records.values():
            if rec["n"] == n:
                for bt in rec.get("b", []):
                    return self.prog.tus[rec["tu"]][bt].get("n")
                return None
        return "std::exception" if n.startswith("std::") and n != "std::exception" or n.startswith("boost::") else None

    def s_GotoStmt(self, s):
        raise Goto(s["n"], len(self.path), len(self.frames))

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        if e is None:
            return VOID
        if e.get("l"):
            self.loc = (self.frames[-1].fn["file"], e["l"]) if self.frames else ("?", e["l"])
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            if "ch" in e and len(e["ch"]) == 1:
                return self.ev(e["ch"][0])
            raise Abort("expression %s at %s" % (e["k"], self.here()))
        return m(e)

    def val(self, e):
        return self.rv(self.ev(e))

    def e_IntegerLiteral(self, e):
        return e["v"]

    def e_FloatingLiteral(self, e):
        return float(e["v"])

    def e_CXXBoolLiteralExpr(self, e):
        return bool(e["v"])

    def e_CharacterLiteral(self, e):
        return e["v"]

    def e_StringLiteral(self, e):
        return Str(e["v"])

    def e_CXXNullPtrLiteralExpr(self, e):
        return NULL

    def e_GNUNullExpr(self, e):
        return NULL

    def e_UnaryExprOrTypeTraitExpr(self, e):
        return e.get("v", Top("sizeof"))

    def e_PredefinedExpr(self, e):
        return Str("")

    def e_CXXThisExpr(self, e):
        return Ptr(self.frames[-1].this)

    def e_CXXScalarValueInitExpr(self, e):
        return self.default(self.ty(e["t"]), self.frames[-1].tu, True)

    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr

    def gref(self, k):
        if k in self.gcells:
            return self.gcells[k]
        g = self.prog.globals.get(k)
        if g is None:
            return None
        fake = {"n": "<init of %s>" % g["n"], "file": g["file"], "l": g["l"], "tu": g["tu"], "u": "", "p": [], "r": -1}
        fr = Frame(fake, g["tu"])
        self.frames.append(fr)
        savep, savepd, savemem = self.path, self.pathd, self.mem
        try:
            t = self.prog.tus[g["tu"]][g["t"]]
            self.ncell += 1
            r = Ref(self.ncell)
            self.gmem[r.cell] = self.default(t, g["tu"], True)
            self.gcells[k] = r
            if g.get("init") is not None:
                v = self.rv(self.ev(g["init"]))
                if t["k"] == "arr" and isinstance(v, Vec):
                    v = Arr(t.get("z") or len(v.v), {i: x for i, x in enumerate(v.v)})
                self.gmem[r.cell] = self.convert(v, t, g["tu"])
            self.gset.add(r.cell)
        finally:
            self.frames.pop()
        return r

    def e_DeclRefExpr(self, e):
        fr = self.frames[-1]
        if "fn" in e:
            return FnV(e["fn"]["u"], e["fn"]["n"])
        if e.get("dk") == "enum":
            return e["v"]
        if e.get("dk") == "field":
            return MPtr(e["n"])
        r = fr.env.get(e["d"])
        if r is not None:
            if e["d"] in fr.lazy:
                x = fr.lazy.pop(e["d"])
                try:
                    self.store(r, self.rv(self.ev(x)))
                finally:
                    fr.lazy[e["d"]] = x
            return r
        if e.get("dk") in ("global", "slocal"):
            if e.get("q") == "std::nullopt":
                return Obj("std::nullopt_t", {})
            if e.get("q", "").startswith("std::placeholders::_"):
                return Hold(int(e["q"].rsplit("_", 1)[1]) - 1)
            if "v" in e:
                return e["v"]
            g = self.gref((fr.tu, e["d"]))
            if g is not None:
                return g
            return Top("external variable %s" % e.get("q"))
        if "v" in e:
            return e["v"]
        raise Abort("unknown variable %s at %s" % (e["n"], self.here()))

    def e_MemberExpr(self, e):
        if "fn" in e:
            return FnV(e["fn"]["u"], e["fn"]["n"])
        if e.get("dk") == "global":
            if "v" in e:
                return e["v"]
            g = self.gref((self.frames[-1].tu, e["d"]))
            if g is not None:
                return g
            return Top("external static member %s" % e["n"])
        b = self.ev(e["b"])
        if e["arrow"]:
            b = self.deref(self.rv(b))
        h = self.hooks.get("@member")
        if isinstance(b, Ref):
            return self.field(b, e["n"])
        if isinstance(b, Obj):
            return b.f.get(e["n"], Top("field %s of %s" % (e["n"], b.t)))
        if isinstance(b, Gam):
            return gval(b.c, self.getel(b.a, ("f", e["n"])), self.getel(b.b, ("f", e["n"])))
        return b if isinstance(b, Top) else Top("member %s" % e["n"])

    def field(self, ref, n):
        r = ref.sub(("f", n))
        v = None
        try:
            v = self.load(ref)
        except Abort:
            raise
        if isinstance(v, Obj):
            x = v.f.get(n)
            # reference-typed fields are stored as tagged pointers
            if isinstance(x, Ptr) and v.f.get("&" + n):
                return x.ref
        return r

    def deref(self, p):
        if isinstance(p, Gam):
            p = self.pick(p)
        if isinstance(p, Ptr):
            if p.ref is None:
                self.event("null", "dereference of a null pointer")
                return self.new(Top("null"))
            return p.ref
        if isinstance(p, It):
            return self.itref(p)
        if isinstance(p, Top):
            return self.new(p)
        if isinstance(p, Gam):
            return gval(p.c, self.rv(self.deref(p.a)), self.rv(self.deref(p.b)))
        if isinstance(p, Inserter):
            return p
        if isinstance(p, Ref):
            return p
        if isinstance(p, Obj) and p.t == "std::optional":
            if "v" not in p.f:
                self.event("null", "value of an empty std::optional")
                return self.new(Top("empty optional"))
            return self.new(p.f["v"])
        raise Abort("dereference of %r at %s" % (p, self.here()))

    def itadv(self, it, k):
        """iterator (or pointer) k positions further"""
        if isinstance(it, Ptr):
            return self.ptradd(it, k)
        return It(it.ref, it.i - k if it.kind in ("rev", "rmap") else it.i + k, it.kind)

    def itref(self, it):
        if isinstance(it, Ptr):
            return it.ref
        if it.kind == "map":
            return it.ref.sub(("mk", it.i))
        if it.kind == "rev":
            return it.ref.sub(("i", it.i - 1))
        if it.kind == "rmap":
            return it.ref.sub(("mk", it.i - 1))
        v = self.load(it.ref)
        if isinstance(v, Vec) and not (0 <= it.i < len(v.v)):
            self.event("oob", "dereference of an iterator at position %d of a container of size %d" % (it.i, len(v.v)))
            return self.new(Top("out of bounds iterator"))
        return it.ref.sub(("i", it.i))

    def e_ArraySubscriptExpr(self, e):
        b = self.rv(self.ev(e["a"])) if e["a"].get("t") is not None and self.ty(e["a"]["t"])["k"] == "ptr" else self.ev(e["a"])
        i = self.val(e["b"])
        if not isinstance(i, int):
            if isinstance(i, float):
                i = int(i)
            else:
                if isinstance(i, Poly):
                    self.unset(i, "index is")
                return Top("symbolic index")
        if isinstance(b, Ptr):
            return self.ptradd(b, i).ref or self.new(Top("null"))
        if isinstance(b, Ref):
            v = self.load(b)
            if isinstance(v, Ptr):
                return self.ptradd(v, i).ref
            return b.sub(("i", i))
        return Top("subscript")

    def ptradd(self, p, i):
        if p.ref is None:
            return p
        if p.ref.path and p.ref.path[-1][0] in ("i", "ic"):
            w, k = p.ref.path[-1]
            return Ptr(Ref(p.ref.cell, p.ref.path[:-1] + ((w, k + i),)))
        if p.ref.path and p.ref.path[-1][0] == "e":
            # address of a coefficient: its neighbours are those of the (column-major) storage
            m = self.load(Ref(p.ref.cell, p.ref.path[:-1]))
            if isinstance(m, Mat):
                return Ptr(Ref(p.ref.cell, p.ref.path[:-1] + (("ic", p.ref.path[-1][1] + p.ref.path[-1][2] * m.r + i),)))
        v = self.load(p.ref)
        if isinstance(v, (Arr, Vec)):
            return Ptr(p.ref.sub(("i", i)))
        if isinstance(v, Mat):
            return Ptr(p.ref.sub(("ic", i)))
        if i == 0:
            return p
        return Ptr(p.ref.sub(("i", i)))

    def casting(self, e):
        ck = e["ck"]
        v = self.ev(e["e"])
        t = self.ty(e["t"])
        if ck in ("NoOp", "LValueBitCast", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "ConstructorConversion", "UserDefinedConversion", "FunctionToPointerDecay", "BitCast", "Dependent"):
            return v
        if ck == "ArrayToPointerDecay":
            if isinstance(v, Ref) and isinstance(self.load(v), Arr):
                return Ptr(v.sub(("i", 0)))
            return v
        if ck == "ToVoid":
            return VOID
        v = self.rv(v)
        if ck == "NullToPointer":
            return NULL
        if ck == "FloatingToIntegral":
            if isinstance(v, float):
                if math.isinf(v) or math.isnan(v):
                    return Top("int of inf/nan")
                return int(v)
            if isinstance(v, int):
                return v
            return P.func("trunc", v) if isinstance(v, Poly) else v
        if ck == "IntegralToFloating":
            if isinstance(v, (bool, B)):
                return self.b2n(v)
            return v
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return self.boolv(v)
        if ck in ("IntegralCast", "BooleanToSignedIntegral", "FloatingCast", "LValueToRValue", "IntegralToPointer"):
            if isinstance(v, (bool, B)) and t["k"] != "bool":
                return self.b2n(v)
            if isinstance(v, int) and t["k"] == "uint" and v < 0:
                return v % (1 << t["w"])
            if isinstance(v, int) and t["k"] == "int" and v >= (1 << (t["w"] - 1)):
                v &= (1 << t["w"]) - 1
                return v - (1 << t["w"]) if v >= (1 << (t["w"] - 1)) else v
            return v
        return v

    e_ImplicitCastExpr = casting
    e_CXXStaticCastExpr = casting
    e_CStyleCastExpr = casting
    e_CXXFunctionalCastExpr = casting
    e_CXXConstCastExpr = casting
    e_CXXReinterpretCastExpr = casting
    e_CXXDynamicCastExpr = casting

    def e_ConditionalOperator(self, e):
        c = self.cond(e["c"])
        d, rest = self.decide(c)
        if d is True:
            return self.ev(e["a"])
        if d is False:
            return self.ev(e["b"])
        out = {}

        def run(k, x):
            def f():
                out[k] = self.new(self.rv(self.ev(x)))
                return True
            return f
        r = self.new(VOID)

        def runx(x):
            def f():
                self.mem[r.cell] = self.rv(self.ev(x))
                return True
            return f
        self.branch(c, runx(e["a"]), runx(e["b"]))
        return self.load(r)

    def e_UnaryOperator(self, e):
        op = e["op"]
        x = self.ev(e["e"])
        if op == "&":
            if isinstance(x, (FnV, MPtr)):
                return x
            return Ptr(self.lref(x))
        if op == "*":
            v = self.rv(x)
            if isinstance(v, (FnV, Clo)):
                return v
            if isinstance(v, (Arr, Vec)) and isinstance(x, Ref):
                return x.sub(("i", 0))
            return self.deref(v)
        if op in ("++", "--"):
            v = self.load(x)
            if isinstance(v, Ptr):
                nv = self.ptradd(v, 1 if op == "++" else -1)
            else:
                nv = P.add(v, 1 if op == "++" else -1)
            self.store(x, nv)
            return v if e["post"] else x
        v = self.rv(x)
        if op == "!":
            return bnot(self.boolv(v))
        if op == "-":
            return self.neg(v)
        if op == "+":
            return v
        if op == "~":
            t = self.ty(e["t"])
            if isinstance(v, int):
                return ~v if t["k"] != "uint" else (~v) % (1 << t["w"])
            return Top("bitwise not")
        if op == "__extension__":
            return v
        raise Abort("unary %s" % op)

    def neg(self, v):
        if isinstance(v, Gam):
            v = self.pick(v)
            if isinstance(v, Gam):
                return gval(v.c, self.neg(v.a), self.neg(v.b))
        if isinstance(v, Mat):
            return Mat(v.r, v.c, [P.neg(self.sc(x)) for x in v.d])
        if isinstance(v, B):
            v = self.b2n(v)
        return P.neg(v)

    def sc(self, x):
        if isinstance(x, B):
            return self.b2n(x)
        return x

    def e_BinaryOperator(self, e):
        op = e["op"]
        if op == "=":
            r = self.ev(e["b"])
            v = self.rv(r)
            l = self.ev(e["a"])
            if not isinstance(l, Ref):
                raise Abort("assignment to non-lvalue at %s" % self.here())
            self.store(l, self.convert(v, self.ty(e["a"]["t"]), self.frames[-1].tu))
            return l
        if op == "&&":
            a = self.cond(e["a"])
            d, rest = self.decide(a)
            if d is False:
                return False
            if d is True:
                return self.cond(e["b"])
            return self.lazy(a, lambda: self.cond(e["b"]), lambda: False)
        if op == "||":
            a = self.cond(e["a"])
            d, rest = self.decide(a)
            if d is True:
                return True
            if d is False:
                return self.cond(e["b"])
            return self.lazy(a, lambda: True, lambda: self.cond(e["b"]))
        if op == ",":
            self.ev(e["a"])
            return self.ev(e["b"])
        if op in (".*", "->*"):
            o = self.ev(e["a"])
            m = self.rv(self.ev(e["b"]))
            if op == "->*":
                o = self.deref(self.rv(o))
            return self.member_of(o, m)
        a = self.val(e["a"])
        b = self.val(e["b"])
        return self.binop(op, a, b, self.ty(e["t"]))

    def member_of(self, o, m):
        """o.*m"""
        if isinstance(m, Gam):
            m = self.pick(m)
        if isinstance(o, Ptr) or (isinstance(o, Ref) and isinstance(self.load(o), Ptr)):
            o = self.deref(self.rv(o))
        if isinstance(m, MPtr):
            if isinstance(o, Ref):
                return self.field(o, m.n)
            o = self.rv(o)
            if isinstance(o, Obj):
                return o.f.get(m.n, Top("field %s" % m.n))
        if isinstance(m, FnV) and m.u in self.prog.funcs:
            return Clo(m.u, {}, self.lref(o))
        raise Abort("pointer to member at %s" % self.here())

    def lazy(self, c, ft, ff):
        r = self.new(VOID)

        def w(f):
            def g():
                self.mem[r.cell] = f()
                return True
            return g
        self.branch(c, w(ft), w(ff))
        return self.load(r)

    def e_CompoundAssignOperator(self, e):
        l = self.ev(e["a"])
        b = self.val(e["b"])
        a = self.rv(l)
        op = e["op"][:-1]
        v = self.binop(op, a, b, self.ty(e["ct"]))
        t = self.ty(e["t"])
        if t["k"] in ("int", "uint") and isinstance(v, float):
            v = int(v)
        if t["k"] == "bool":
            v = self.boolv(v)
        self.store(l, v)
        return l

    def binop(self, op, a, b, t):
        if isinstance(a, Gam):
            a = self.pick(a)
        if isinstance(b, Gam):
            b = self.pick(b)
        if isinstance(a, Gam):
            return gval(a.c, self.binop(op, a.a, b, t), self.binop(op, a.b, b, t))
        if isinstance(b, Gam):
            return gval(b.c, self.binop(op, a, b.a, t), self.binop(op, a, b.b, t))
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.cmp(op, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, int):
                return self.ptradd(a, b if op == "+" else -b)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "-":
                if a.ref.cell == b.ref.cell and a.ref.path[-1:] and b.ref.path[-1:]:
                    return a.ref.path[-1][1] - b.ref.path[-1][1]
            return Top("pointer arithmetic")
        if op in ("&", "|", "^", "<<", ">>"):
            if isinstance(a, bool):
                a = int(a)
            if isinstance(b, bool):
                b = int(b)
            if isinstance(a, int) and isinstance(b, int):
                return {"&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b,
                        "<<": lambda: a << b, ">>": lambda: a >> b}[op]()
            if isinstance(a, (B,)) or isinstance(b, (B,)):
                a, b = self.boolv(a), self.boolv(b)
                if op == "&":
                    return self.b2n(band(a, b))
                if op == "|":
                    return self.b2n(bor(a, b))
            if isinstance(a, Top):
                return a
            return Top("bit operation on symbolic values")
        a, b = self.sc(a), self.sc(b)
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        if not isinstance(a, (int, float, Poly)) or not isinstance(b, (int, float, Poly)):
            return Top("arithmetic on %s/%s" % (type(a).__name__, type(b).__name__))
        if op == "+":
            return P.add(a, b)
        if op == "-":
            return P.sub(a, b)
        if op == "*":
            return P.mul(a, b)
        if op == "/":
            if t["k"] in ("int", "uint"):
                if isinstance(a, int) and isinstance(b, int):
                    if b == 0:
                        self.event("div0", "integer division by zero")
                        return Top("integer division by zero")
                    q = abs(a) // abs(b)
                    return q if (a >= 0) == (b >= 0) else -q
                return P.func("idiv", a, b)
            P.divisor(b)
            return P.div(float(a) if isnum(a) and isnum(b) else a, b)
        if op == "%":
            if isinstance(a, int) and isinstance(b, int) and b != 0:
                return int(math.fmod(a, b))
            return P.func("mod", a, b)
        raise Abort("binary %s" % op)

    def cmp(self, op, a, b):
        if isinstance(a, Gam):
            a = self.pick(a)
        if isinstance(b, Gam):
            b = self.pick(b)
        if isinstance(a, Gam):
            return bite(a.c, self.cmp(op, a.a, b), self.cmp(op, a.b, b))
        if isinstance(b, Gam):
            return bite(b.c, self.cmp(op, a, b.a), self.cmp(op, a, b.b))
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        if isinstance(a, (bool, B)) and isinstance(b, (bool, B)) and op in ("==", "!="):
            r = bor(band(a, b), band(bnot(a), bnot(b)))
            return r if op == "==" else bnot(r)
        a, b = self.sc(a), self.sc(b)
        if isinstance(a, (int, float, Poly)) and isinstance(b, (int, float, Poly)):
            a, b = P.num(a), P.num(b)
            if isnum(a) and isnum(b):
                return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
            if isnum(a) and math.isinf(a) or isnum(b) and math.isinf(b):
                inf = a if isnum(a) else b
                pos = (inf > 0)
                if op in ("==",):
                    return False
                if op == "!=":
                    return True
                lt = pos if isnum(b) else not pos
                return lt if op in ("<", "<=") else not lt
            if op == "==":
                return eq0(P.sub(a, b))
            if op == "!=":
                return bnot(eq0(P.sub(a, b)))
            if op == ">":
                return gt0(P.sub(a, b))
            if op == "<":
                return gt0(P.sub(b, a))
            if op == ">=":
                return bnot(gt0(P.sub(b, a)))
            return bnot(gt0(P.sub(a, b)))
        if isinstance(a, It) and isinstance(b, It):
            return {"==": a.i == b.i, "!=": a.i != b.i, "<": a.i < b.i, ">": a.i > b.i, "<=": a.i <= b.i, ">=": a.i >= b.i}[op]
        if op in ("==", "!="):
            if isinstance(a, Mat) and isinstance(b, Mat):
                r = True
                if (a.r, a.c) != (b.r, b.c):
                    r = False
                else:
                    for x, y in zip(a.d, b.d):
                        r = band(r, self.cmp("==", x, y))
            elif isinstance(a, Vec) and isinstance(b, Vec):
                r = len(a.v) == len(b.v)
                if r:
                    for x, y in zip(a.v, b.v):
                        r = band(r, self.cmp("==", x, y))
            elif isinstance(a, Obj) and isinstance(b, Obj):
                r = True
                for k in a.f:
                    r = band(r, self.cmp("==", a.f[k], b.f.get(k)))
            elif isinstance(a, Ptr) and not isinstance(b, Ptr):
                r = (a.ref is None) == (b == 0)
            else:
                r = veq(a, b)
            return r if op == "==" else bnot(r)
        if isinstance(a, (Str, str)) and isinstance(b, (Str, str)):
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        return Top("comparison of %s and %s" % (type(a).__name__, type(b).__name__))

    def e_InitListExpr(self, e):
        t = self.ty(e["t"])
        vs = [self.rv(self.ev(a)) for a in e["args"]]
        if t["k"] == "rec" and "r" in t:
            rec = self.prog.records[t["r"]]
            f = {}
            for fd, v in zip(rec["f"], vs):
                f[fd["n"]] = self.convert(v, self.prog.tus[rec["tu"]][fd["t"]], rec["tu"])
            for fd in rec["f"][len(vs):]:
                f[fd["n"]] = self.default(self.prog.tus[rec["tu"]][fd["t"]], rec["tu"], True)
            return Obj(rec["n"], f)
        if t["k"] == "arr":
            n = t.get("z") or len(vs)
            d = {i: x for i, x in enumerate(vs)}
            if e.get("filler") is not None and n <= 65536:
                et = self.ty(t["e"])
                for i in range(len(vs), n):
                    d[i] = self.default(et, self.frames[-1].tu, True)
            return Arr(n, d)
        if t["k"] in ("int", "uint", "float", "bool", "enum", "ptr"):
            return vs[0] if vs else (0 if t["k"] != "ptr" else NULL)
        if t["k"] == "rec" and t.get("n") == "std::array":
            tu = self.frames[-1].tu
            et = self.prog.tus[tu][t["a"][0]["t"]]
            n = t["a"][1]["i"]
            if len(vs) == 1 and isinstance(vs[0], Arr) and n == vs[0].n:
                vs = [vs[0].d.get(i) for i in range(n)]
            vs = [self.default(et, tu, True) if x is None else x for x in vs]
            return Vec(vs + [self.default(et, tu, True) for _ in range(n - len(vs))])
        return Vec(vs)

    def e_CXXStdInitializerListExpr(self, e):
        v = self.rv(self.ev(e["e"]))
        if isinstance(v, Arr):
            return Vec(v.d.get(i) for i in range(v.n))
        return v

    def e_LambdaExpr(self, e):
        fr = self.frames[-1]
        caps = {}
        this = None
        for c in e["caps"]:
            if c.get("this"):
                this = fr.this
                continue
            if "d" not in c:
                continue
            if c["d"] in fr.env:
                r = fr.env[c["d"]]
            elif c.get("e") is not None:
                r = self.lref(self.ev(c["e"]))
            else:
                continue
            caps[c["d"]] = r if c["ref"] else self.new(self.load(r))
        return Clo(e["fn"]["u"], caps, this, e.get("specs", ()))

    def e_CXXNewExpr(self, e):
        t = self.ty(e["nt"])
        if e.get("size") is not None:
            n = self.val(e["size"])
            n = n if isinstance(n, int) else 0
            if e.get("init") is not None:
                a = Arr(n, {i: self.default(t, self.frames[-1].tu, True) for i in range(min(n, 4096))})
                v = self.rv(self.ev(e["init"])) if e["init"]["k"] == "InitListExpr" else None
                if isinstance(v, Arr):
                    a.d.update(v.d)
            elif t["k"] in ("rec", "arr"):
                a = Arr(n, {i: self.default(t, self.frames[-1].tu) for i in range(min(n, 4096))})
            else:
                a = Arr(n)
            return Ptr(self.new(a).sub(("i", 0)))
        if e.get("init") is not None:
            v = self.rv(self.ev(e["init"]))
        else:
            v = self.default(t, self.frames[-1].tu)
        self.trace.append(("new", t.get("n", t.get("s")), self.here()))
        return Ptr(self.new(v))

    def e_CXXDeleteExpr(self, e):
        v = self.rv(self.ev(e["e"]))
        self.trace.append(("delete", v, self.here()))
        return VOID

    def e_CXXThrowExpr(self, e):
        if e["e"] is None:
            if self.caught:
                raise self.caught[-1]
            raise AbsThrow("rethrow", "", self.here())
        loc = self.here()
        t = self.ty(e["e"]["t"])
        try:
            v = self.rv(self.ev(e["e"]))
        except Abort:
            v = None
        self.throwsites = getattr(self, "throwsites", set())
        self.throwsites.add(loc)
        msg = v.f.get("what", "") if isinstance(v, Obj) else ""
        x = AbsThrow(t.get("n", t.get("s", "?")), msg, loc)
        x.val = v
        raise x

    # ---- calls: see models.py
    def e_CXXConstructExpr(self, e):
        return self.construct(e)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CallExpr(self, e):
        return self.docall(e)

    e_CXXMemberCallExpr = e_CallExpr
    e_CXXOperatorCallExpr = e_CallExpr
    e_UserDefinedLiteral = e_CallExpr


def diag_ix(v, el):
    """positions of a diagonal of a matrix"""
    k = el[1] if len(el) > 1 else 0
    return [i * v.c + i + k for i in range(v.r) if 0 <= i + k < v.c]


def mat_t(v):
    d, l = [], []
    for j in range(v.c):
        for i in range(v.r):
            d.append(v.d[i * v.c + j])
            l.append(v.l[i * v.c + j])
    return Mat(v.c, v.r, d, l)
