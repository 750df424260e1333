"""Transfer functions for calls: in-line analysis of bodies of the repository,
models of the Eigen / libstdc++ / ndcurves operations that the repository uses."""
import math

import poly as P
import values as V
from poly import Poly, Top, isnum
from values import *
from engine import *
from engine import mat_t

ADD, MUL, SUB = P.add, P.mul, P.sub


def DIV(a, b):
    P.divisor(b)
    return P.div(a, b)


def INV(b):
    P.divisor(b)
    return P.inv(b)


def SQRT(x):
    P.radicand(x)
    return P.sqrt(x)


def sc(x):
    if isinstance(x, B):
        at = first_atom(x)
        return gpoly(at, sc(brestrict(x, at, True)), sc(brestrict(x, at, False)))
    if isinstance(x, bool):
        return int(x)
    return x


def is_scalar(x):
    return isinstance(x, (int, float, Poly, bool, B))


def fill(r, c, x, loc=None):
    return Mat(r, c, [x] * (r * c), [loc] * (r * c))


def eye(r, c, loc=None):
    return Mat(r, c, [1 if i == j else 0 for i in range(r) for j in range(c)], [loc] * (r * c))


def mmul(a, b, loc=None):
    out = []
    A, Bd = a.d, b.d
    n, k, m = a.r, a.c, b.c
    for i in range(n):
        row = A[i * k:(i + 1) * k]
        nz = [(q, x) for q, x in enumerate(row) if not (isnum(x) and x == 0)]
        for j in range(m):
            acc = 0
            terms = None
            for q, x in nz:
                y = Bd[q * m + j]
                if isnum(y) and y == 0:
                    continue
                acc = ADD(acc, MUL(sc(x), sc(y)))
            out.append(acc)
    return Mat(n, m, out, [loc] * (n * m))


def lin(op, a, b):
    """+/- on points: scalars, matrices, pair-like objects"""
    f = ADD if op == "+" else SUB
    if isinstance(a, Mat) and isinstance(b, Mat):
        if (a.r, a.c) != (b.r, b.c):
            return Top("size mismatch %dx%d %s %dx%d" % (a.r, a.c, op, b.r, b.c))
        return Mat(a.r, a.c, [f(sc(x), sc(y)) for x, y in zip(a.d, b.d)])
    if isinstance(a, Obj) and isinstance(b, Obj):
        return Obj(a.t, {k: lin(op, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Top):
        return a
    if isinstance(b, Top):
        return b
    if isinstance(a, Obj) or isinstance(b, Obj) or isinstance(a, Mat) or isinstance(b, Mat):
        return Top("mixed linear combination")
    return f(sc(a), sc(b))


def scl(a, k):
    if isinstance(a, Mat):
        return Mat(a.r, a.c, [MUL(sc(x), k) for x in a.d])
    if isinstance(a, Obj):
        return Obj(a.t, {n: scl(v, k) for n, v in a.f.items()})
    if isinstance(a, Top):
        return a
    return MUL(sc(a), k)


def dot(a, b):
    if len(a.d) == len(b.d) and len(a.d) and all(x is y for x, y in zip(a.d, b.d)):
        return P.squares([sc(x) for x in a.d])
    acc = 0
    for x, y in zip(a.d, b.d):
        acc = ADD(acc, MUL(sc(x), sc(y)))
    return acc


class Interp(Engine):
    # -------------------------------------------------------- dispatch
    def docall(self, e):
        fr = self.frames[-1]
        fn = e.get("fn")
        line = e.get("l")
        loc = (fr.fn["file"], line)
        args_e = e["args"]
        if fn is None:
            # call through a pointer / functor
            c = self.rv(self.ev(e["callee"]))
            args = [self.ev(a) for a in args_e]
            self.loc = loc
            return self.apply(c, args)
        n = fn["n"]
        u = fn["u"]
        h = self.hooks.get(n)
        obj = None
        if "obj" in e:
            obj = self.ev(e["obj"])
            if e.get("arrow"):
                obj = self.deref(self.rv(obj))
        args = [self.ev(a) for a in args_e]
        self.loc = loc
        if h is not None:
            r = h(self, e, obj, args)
            if r is not NotImplemented:
                return r
        if "op" in e:
            ops = e["op"]
            if fn.get("m") == 1:
                obj, args = args[0], args[1:]
        f = self.prog.funcs.get(u)
        if fn.get("virt") and obj is not None:
            o = self.override(fn, obj)
            f = o if o is not None else f
        if f is not None and not (fn.get("copy") and fn.get("impl")):
            this = None
            if fn.get("m") == 1:
                this = self.lref(obj)
                if fn.get("virt"):
                    pass
            if n.split("::")[-1] == "operator()" and obj is not None:
                c = self.rv(obj)
                if isinstance(c, Clo):
                    return self.call(f, args, c.this, c.caps)
            r = self.call(f, args, this)
            self.loc = loc
            return r
        return self.model(e, fn, n, obj, args)

    def override(self, fn, obj):
        """the function that a virtual call reaches"""
        v = self.rv(obj)
        v = self.pick(v) if isinstance(v, Gam) else v
        if not isinstance(v, Obj):
            return None
        short = fn["n"].split("::")[-1]
        n, seen = v.t, set()
        while n and n not in seen:
            seen.add(n)
            fs = [f for f in self.prog.funcs.values() if f["n"] == n + "::" + short and len(f["p"]) == len(fn.get("p", []))]
            if len(fs) == 1:
                return fs[0]
            recs = [r for r in self.prog.records.values() if r["n"] == n]
            if fs or not recs:
                return None
            b = recs[0].get("b", [])
            n = self.prog.tus[recs[0]["tu"]][b[0]].get("n") if len(b) == 1 else None
        return None

    def moved(self, v, t, tu):
        """what an object is left with once it has been moved from (None: nothing is known to change)"""
        n = t.get("n", "")
        if n in ("std::vector", "std::list", "std::deque", "std::set", "std::stack", "std::queue") and isinstance(v, Vec):
            return Vec(())
        if n in ("std::map", "std::unordered_map") and isinstance(v, MapV):
            return MapV({})
        if n in ("std::unique_ptr", "std::shared_ptr") and isinstance(v, Ptr):
            return NULL
        if n == "Eigen::Matrix" and isinstance(v, Mat):
            r, c = self.eigdims(t)
            return Mat(max(r, 0), max(c, 0), []) if r < 0 or c < 0 else None
        return None

    def move_from(self, src, t, tu):
        if isinstance(src, Ref):
            v = self.load(src)
            m = self.moved(v, t, tu)
            if m is not None:
                self.store(src, m)

    def loadbound(self, a, args):
        return args[a.i] if isinstance(a, Hold) else a

    def apply(self, c, args):
        if isinstance(c, Gam):
            c = self.pick(c)
        if isinstance(c, Gam):
            out = self.new(VOID)

            def run(x):
                def f():
                    self.mem[out.cell] = self.rv(self.apply(x, args))
                    return True
                return f
            self.branch(B("a", c.c), run(c.a), run(c.b))
            return self.load(out)
        if isinstance(c, Bound):
            return self.apply(c.f, [self.loadbound(a, args) for a in c.args])
        if isinstance(c, MPtr) and args:
            return self.member_of(args[0], c)
        if isinstance(c, FnV):
            f = self.prog.funcs.get(c.u)
            h = self.hooks.get(c.n)
            if h is not None:
                r = h(self, None, None, args)
                if r is not NotImplemented:
                    return r
            if f is None:
                return self.unknown("call through pointer to %s" % c.n, args)
            if f.get("m") == 1 and len(args) == len(f["p"]) + 1:
                this = args[0]
                if isinstance(self.rv(this), Ptr):
                    this = self.deref(self.rv(this))
                return self.call(f, args[1:], self.lref(this))
            return self.call(f, args)
        if isinstance(c, Clo):
            f = self.prog.funcs.get(c.u)
            if f is None:
                fs = self.suiting([self.prog.funcs[u] for u in c.specs if u in self.prog.funcs], args)
                if len(fs) != 1:
                    raise Abort("generic lambda with %d candidates at %s" % (len(fs), self.here()))
                f = fs[0]
            return self.call(f, args, c.this, c.caps)
        if isinstance(c, Ref):
            o = self.load(c)
            if isinstance(o, Obj):
                return self.functor(o, c, args)
            return self.apply(o, args)
        if isinstance(c, Obj):
            return self.functor(c, self.new(c), args)
        if isinstance(c, Ptr) and c.ref is not None:
            return self.apply(self.load(c.ref), args)
        if isinstance(c, Ptr):
            self.event("null", "call through a null function pointer")
        return self.unknown("indirect call of %r" % (c,), args)

    FUNCTORS = {"plus": "+", "minus": "-", "multiplies": "*", "divides": "/", "less": "<", "greater": ">", "less_equal": "<=", "greater_equal": ">=",
                "equal_to": "==", "not_equal_to": "!="}

    def functor(self, o, ref, args):
        op = self.FUNCTORS.get(o.t.split("::")[-1]) if o.t.startswith("std::") else None
        if op is not None:
            a, b = self.rv(args[0]), self.rv(args[1])
            return self.vop(op, a, b) if op in "+-*/" else self.cmp(op, a, b)
        f = self.suiting([x for x in self.prog.funcs.values() if x["n"] == o.t + "::operator()"], args)
        if len(f) == 1:
            return self.call(f[0], args, ref)
        return self.unknown("call of an object of type %s" % o.t, args)

    def suiting(self, fs, args):
        """the overloads or instantiations of a call operator that take these arguments"""
        fs = [f for f in fs if len(f["p"]) == len(args)]
        if len(fs) > 1:
            fs = [f for f in fs if all(self.suits(self.prog.tus[f["tu"]], p["t"], a) for p, a in zip(f["p"], args))] or fs
        if len(fs) > 1:
            one = {}
            for f in fs:       # the same instantiation seen in several units, or only value category apart
                one.setdefault(tuple(self.barename(self.prog.tus[f["tu"]], p["t"]) for p in f["p"]), f)
            fs = list(one.values())
        return fs

    def barename(self, tys, i):
        t = tys[i]
        while t["k"] in ("ref", "rref"):
            t = tys[t["e"]]
        return t.get("s", "").replace("const ", "")

    def suits(self, tys, i, a):
        v = self.rv(a)
        while isinstance(v, Gam):
            v = v.a
        t = tys[i]
        while t["k"] in ("ref", "rref"):
            t = tys[t["e"]]
        n = t.get("n", "")
        if P.isnum(v) or isinstance(v, (bool, P.Poly, B)):
            return t["k"] not in ("rec", "ptr")
        if isinstance(v, Mat):
            return n.startswith("Eigen::") and (not n == "Eigen::Matrix" or self.eigdims(t)[0] in (-1, v.r) and self.eigdims(t)[1] in (-1, v.c))
        if isinstance(v, Obj):
            return n == v.t
        if isinstance(v, Ptr):
            return t["k"] == "ptr" or t["k"] == "rec" and not n.startswith("Eigen::")
        return t["k"] == "rec"

    def unknown(self, what, args, const=False):
        self.unmodelled[what] = self.unmodelled.get(what, 0) + 1
        return Top("unmodelled %s at %s" % (what, self.here()))

    # -------------------------------------------------------- construction
    def construct(self, e):
        fn = e["fn"]
        fr = self.frames[-1]
        t = self.ty(e["t"])
        loc = (fr.fn["file"], e["l"])
        u = fn["u"]
        if (fn.get("copy") or fn.get("move")) and len(e["args"]) == 1 and (fn.get("impl") or u not in self.prog.funcs):
            v = self.ev(e["args"][0])
            if isinstance(v, Ref) and t["k"] == "rec" and t["n"].startswith("Eigen::") and t["n"].split("::")[-1] in EIGEN_VIEWS:
                return v
            src, v = v, self.rv(v)
            if fn.get("move") and t["k"] == "rec":
                self.move_from(src, t, fr.tu)
            if t["k"] == "rec" and t["n"].split("::")[-1] in EIGEN_DENSE and t["n"].startswith("Eigen"):
                return self.convert(v, t, fr.tu)
            return v
        args = [self.ev(a) for a in e["args"]]
        self.loc = loc
        h = self.hooks.get(fn["n"])
        if h is not None:
            r = h(self, e, None, args)
            if r is not NotImplemented:
                return r
        if u in self.prog.funcs:
            this = self.new(self.default(t, fr.tu))
            self.call(self.prog.funcs[u], args, this)
            self.loc = loc
            return self.load(this)
        if t["k"] == "arr":
            return self.default(t, fr.tu)
        return self.build(t, args, fr.tu)

    def find_ctor(self, t, args, tu):
        """the constructor of a record of the repository a call with these arguments selects"""
        n = t["n"]
        short = n.split("::")[-1].split("<")[0]
        best = None
        for f in self.prog.funcs.values():
            if not f.get("ctor") or not (f["n"] == n + "::" + short):
                continue
            ps = f["p"]
            if len(ps) < len(args):
                continue
            if any("de" not in p for p in ps[len(args):]):
                continue
            ok = True
            for p, a in zip(ps, args):
                pt = self.prog.tus[f["tu"]][p["t"]]
                v = self.rv(a)
                if pt["k"] in ("ref", "lref", "rref"):
                    pt = self.prog.tus[f["tu"]][pt["t"]] if "t" in pt else pt
                if pt["k"] == "ptr" != isinstance(v, Ptr):
                    ok = False
                if pt["k"] == "rec" and not isinstance(v, (Obj, Mat, Vec, MapV, Str, str, Gam, Top, Ptr, FnV, Clo)):
                    ok = False
            if ok:
                if best is not None and best["u"] != f["u"]:
                    return None
                best = f
        return best

    def build(self, t, args, tu):
        """a value of type t from constructor arguments"""
        n = t.get("n", "")
        b = n.split("::")[-1]
        if n.startswith("Eigen::"):
            if b in EIGEN_DENSE:
                return self.eig_ctor(t, args, tu)
            if b in ("LLT", "SimplicialLLT"):
                r = Obj("Eigen::LLT", {"m": None, "rev": b == "SimplicialLLT" and "NaturalOrdering" not in t.get("s", "")})
                return self.factor(r, self.rv(args[0])) if args else r
            if b == "Map" and args:
                return self.eig_map(t, args, tu)
            if b in ("Stride", "InnerStride", "OuterStride"):
                return Obj(n, {"a": Vec([self.rv(a) for a in args])})
            if b in EIGEN_VIEWS and args:
                return args[0]
            if args:
                return args[0]
            return Obj(n, {})
        if n in ("std::vector", "std::list", "std::deque"):
            return self.vec_ctor(t, args, tu)
        if n in ("std::set", "std::unordered_set", "std::multiset"):
            v = self.vec_ctor(t, args[:2] if args and isinstance(self.rv(args[0]), (It, Ptr)) else args[:1], tu) if args and not is_scalar(self.rv(args[0])) else Vec(())
            return self.set_of(v, n) if isinstance(v, Vec) else v
        if n in ("std::stack", "std::queue"):
            v = self.rv(args[0]) if args else Vec(())
            return v if isinstance(v, Vec) else Vec(())
        if n == "std::optional":
            v = self.rv(args[0]) if args else Obj("std::nullopt_t", {})
            if len(args) > 1 and isinstance(v, Obj) and v.t == "std::in_place_t":
                v = self.build(self.prog.tus[tu][t["a"][0]["t"]], args[1:], tu)
            return v if isinstance(v, (Top, Gam)) else self.optional(v, t, tu)
        if n == "std::weak_ptr":
            return self.rv(args[0]) if args else NULL
        if n in ("std::map", "std::unordered_map"):
            if not args:
                return MapV({})
            v = self.rv(args[0])
            if isinstance(v, MapV):
                return v
            if isinstance(v, Vec):
                d = {}
                for p in v.v:
                    d.setdefault(p.f["first"], p.f["second"])
                return MapV(d)
            if isinstance(v, It):
                src = self.load(v.ref)
                return MapV(dict((p.f["first"], p.f["second"]) for p in src.v)) if isinstance(src, Vec) else src
            return MapV({})
        if n in ("std::pair", "std::tuple"):
            if not args:
                return self.default(t, tu)
            if len(args) == 1:
                return self.rv(args[0])
            vs = [self.rv(a) for a in args]
            ks = ["first", "second"] if n == "std::pair" else ["_%d" % i for i in range(len(vs))]
            out = {}
            for i, (k, v) in enumerate(zip(ks, vs)):
                at = t["a"][i] if i < len(t.get("a", [])) else None
                if at and "t" in at:
                    v = self.convert(v, self.prog.tus[tu][at["t"]], tu)
                out[k] = v
            return Obj(n, out)
        if b in ("basic_string", "basic_string_view") or n == "std::string":
            if args:
                v = self.rv(args[0])
                if isinstance(v, (Str, str)):
                    return Str(v)
            return Str("")
        if n == "std::function":
            return self.rv(args[0]) if args else NULL
        if n in ("std::shared_ptr", "std::unique_ptr", "boost::shared_ptr"):
            p = self.rv(args[0]) if args else NULL
            if len(args) > 1 and isinstance(p, Ptr) and p.ref is not None:
                self.deleters[p.ref] = self.rv(args[1])
            return p
        if n == "__gnu_cxx::__normal_iterator" or "iterator" in b:
            return self.rv(args[0]) if args else NULL
        if n == "std::reverse_iterator":
            return self.rv(args[0])
        if n.startswith("ndcurves::"):
            return self.curve_ctor(n, args)
        if n.startswith("std::") and ("error" in b or "exception" in b):
            m = self.rv(args[0]) if args else ""
            return Obj(n, {"what": m if isinstance(m, (str, Str)) else ""})
        if n == "std::array":
            return self.default(t, tu)
        if t.get("lam") and args:
            return self.rv(args[0])
        if n.startswith("std::basic_") or "stream" in n:
            return Obj(n, {})
        if n in ("std::less", "std::greater", "std::equal_to", "std::hash", "std::plus", "std::minus", "std::multiplies", "std::less_equal", "std::greater_equal", "std::not_equal_to", "std::logical_or", "std::logical_and") and not args:
            return Obj(n, {})
        if n in ("std::allocator", "Eigen::aligned_allocator") or (not args and t["k"] == "rec" and not n):
            return self.default(t, tu) if not n else Obj(n, {})
        d = self.hooks.get("@construct", {}).get(n)
        if d is not None:
            return d(self, t, args)
        if "r" in t and t["r"] in self.prog.records:
            # implicit constructor of a record of the repository that the compiler did not need to define
            if not args:
                return self.default(t, tu)
            if len(args) == 1:
                v = self.pick(self.rv(args[0]))
                if isinstance(v, Obj) and v.t == n:
                    return v
            f = self.find_ctor(t, args, tu)
            if f is not None:
                this = self.new(self.default(t, tu))
                self.call(f, args, this)
                return self.load(this)
        self.unknown("constructor of %s" % n, args)
        return self.default(t, tu)

    def eig_ctor(self, t, args, tu):
        r, c = self.eigdims(t)
        if not args:
            return self.default(t, tu)
        vs = [self.rv(a) for a in args]
        vs = [self.pick(v) if isinstance(v, Gam) else v for v in vs]
        for v in vs:
            if isinstance(v, Top):
                return v if len(vs) == 1 or not (r > 0 and c > 0) else Mat(r, c, [v] * (r * c))
        if len(vs) == 1:
            v = vs[0]
            if isinstance(v, Gam):
                return self.lift1(v, lambda x: self.convert(self.eig_from(t, x, tu), t, tu))
            return self.eig_from(t, v, tu)
        if all(is_scalar(v) for v in vs):
            if r >= 0 and c >= 0 and len(vs) == r * c and (1 in (r, c)):
                return Mat(r, c, [sc(v) for v in vs], [self.loc] * len(vs))
            if len(vs) == 2:
                return self.uninit_mat(vs[0], vs[1])
        return self.unknown("Eigen constructor", args)

    def eig_map(self, t, args, tu):
        """matrix over memory that belongs to something else"""
        p = self.rv(args[0])
        if isinstance(p, Gam):
            p = self.pick(p)
        if isinstance(p, Mat):
            return args[0]
        pt = self.prog.tus[tu][t["a"][0]["t"]]
        r, c = self.eigdims(pt)
        row = len(pt.get("a", [])) > 3 and "i" in pt["a"][3] and bool(pt["a"][3]["i"] & 1)
        vs = [self.rv(a) for a in args[1:]]
        st = vs.pop() if vs and isinstance(vs[-1], Obj) else None
        dims = [self.dim(v) for v in vs]
        if len(dims) == 2:
            r, c = dims
        elif len(dims) == 1:
            r, c = (1, dims[0]) if r == 1 else (dims[0], 1)
        if not isinstance(p, Ptr) or r < 0 or c < 0:
            return self.unknown("Eigen::Map of %s" % type(p).__name__, args)
        if p.ref is None:
            if r * c:
                self.event("null", "matrix over a null pointer")
            return self.new(Mat(r, c, [self.uninit() for _ in range(r * c)]))
        if not (p.ref.path and p.ref.path[-1][0] in ("i", "ic")):
            p = self.ptradd(p, 0)
        last = p.ref.path[-1] if p.ref.path else None
        if last is None or last[0] not in ("i", "ic"):
            return self.unknown("Eigen::Map of a single object", args)
        inner, outer = 1, (c if row else r)
        if st is not None or len(t["a"]) > 2 and t["a"][2].get("t") is not None:
            stt = self.prog.tus[tu][t["a"][2]["t"]]
            fixed = [a["i"] for a in stt.get("a", []) if "i" in a]
            kind = stt.get("n", "").split("::")[-1]
            given = [self.dim(x) for x in st.f["a"].v] if st is not None and "a" in st.f and isinstance(st.f["a"], Vec) else []
            if kind == "InnerStride":
                inner = given[0] if given else (fixed[0] if fixed and fixed[0] > 0 else 1)
                outer *= inner
            elif kind == "OuterStride":
                outer = given[0] if given else (fixed[0] if fixed and fixed[0] > 0 else outer)
            elif kind == "Stride":
                o, i = (given + [None, None])[:2]
                o = o if o is not None else fixed[0] if fixed else 0
                i = i if i is not None else fixed[1] if len(fixed) > 1 else 0
                inner = i if i and i > 0 else 1
                outer = o if o and o > 0 else outer
            if (r == 1 or c == 1) and kind == "InnerStride":
                outer = inner
        elif r == 1 or c == 1:
            outer = 1
        si, sj = (outer, inner) if row else (inner, outer)
        if r == 1 or c == 1:
            si = sj = inner
        return Ref(p.ref.cell, p.ref.path[:-1] + (("map", last[0], last[1], r, c, si, sj),))

    def set_of(self, v, n="std::set"):
        ks = list(v.v)
        if not all(P.isnum(k) or isinstance(k, (str, bool)) for k in ks):
            return self.unknown("set of %s" % ", ".join(type(k).__name__ for k in ks), [])
        if n != "std::multiset":
            ks = list(dict.fromkeys(ks))
        return Vec(sorted(ks) if n != "std::unordered_set" else ks)

    def set_method(self, n, b, ref, v, vs):
        if b in ("insert", "emplace", "insert_or_assign"):
            if isinstance(vs[0], It) and len(vs) == 2 and isinstance(vs[1], It):
                new = self.range_vals(vs[0], vs[1])
            elif isinstance(vs[-1], Vec):
                new = list(vs[-1].v)
            else:
                new = [vs[-1]]
            s = self.set_of(Vec(v.v + tuple(new)), n)
            self.store(ref, s)
            if not isinstance(s, Vec):
                return s
            k = s.v.index(new[-1]) if new else 0
            it = It(ref, k)
            return it if isinstance(vs[0], It) else Obj("std::pair", {"first": it, "second": bool(new) and new[-1] not in v.v or n == "std::multiset"})
        if b in ("count", "contains", "find", "erase", "lower_bound", "upper_bound"):
            k = vs[0]
            if b == "erase" and isinstance(k, It):
                j = vs[1].i if len(vs) > 1 else k.i + 1
                self.store(ref, Vec(v.v[:k.i] + v.v[j:]))
                return It(ref, k.i)
            if not (P.isnum(k) or isinstance(k, (str, bool))):
                return self.unknown("%s::%s of %s" % (n, b, type(k).__name__), [])
            if b == "count":
                return v.v.count(k)
            if b == "contains":
                return k in v.v
            if b == "find":
                return It(ref, v.v.index(k) if k in v.v else len(v.v))
            if b == "erase":
                self.store(ref, Vec(x for x in v.v if x != k))
                return v.v.count(k)
            return It(ref, sum(1 for x in v.v if x < k or b == "upper_bound" and x == k))
        return NotImplemented

    def lift1(self, v, f):
        if isinstance(v, Gam):
            return gval(v.c, self.lift1(v.a, f), self.lift1(v.b, f))
        return f(v)

    def uninit_mat(self, r, c):
        r, c = self.dim(r), self.dim(c)
        if r < 0 or c < 0:
            self.event("dim", "matrix allocated with negative size %dx%d" % (r, c))
            r, c = max(r, 0), max(c, 0)
        return Mat(r, c, [self.uninit() for _ in range(r * c)])

    def dim(self, x):
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, float) and x == int(x):
            return int(x)
        if isinstance(x, Top):
            raise Abort("unknown dimension (%s) at %s" % (x.why, self.here()))
        if isinstance(x, Poly):
            self.unset(x, "index or size is")
        raise Abort("symbolic dimension %s at %s" % (P.pstr(x) if isinstance(x, Poly) else x, self.here()))

    def eig_from(self, t, v, tu):
        r, c = self.eigdims(t)
        if isinstance(v, Mat):
            return self.convert(v, t, tu)
        if is_scalar(v):
            if r == 1 and c == 1:
                return Mat(1, 1, [sc(v)])
            if r < 0 and c == 1:
                return self.uninit_mat(v, 1)
            if c < 0 and r == 1:
                return self.uninit_mat(1, v)
            if r >= 0 and c >= 0:
                return Mat(r, c, [self.uninit() for _ in range(r * c)])
        if isinstance(v, Vec):
            if v.v and isinstance(v.v[0], Vec):
                rr, cc = len(v.v), len(v.v[0].v)
                return self.convert(Mat(rr, cc, [sc(x) for q in v.v for x in q.v]), t, tu)
            return self.convert(Mat(len(v.v), 1, [sc(x) for x in v.v]), t, tu)
        if isinstance(v, Comma):
            return self.load(v.ref)
        if isinstance(v, Tri):
            m = self.pick(self.rv(v.m))
            if isinstance(m, Mat):
                return self.convert(Mat(m.r, m.c, [(1 if i == j and v.unit else m.d[i * m.c + j]) if i == j or (j > i) == v.upper else 0 for i in range(m.r) for j in range(m.c)]), t, tu)
        if isinstance(v, Ptr):
            # fixed size matrix from an array
            if r >= 0 and c >= 0 and v.ref is not None:
                return self.rv(self.eig_map({"a": [{"t": None}]}, [v], tu)) if False else Mat(r, c, [self.load(self.ptradd(v, (j * r + i) if not self.rowmajor(t) else i * c + j).ref) for i in range(r) for j in range(c)])
        if isinstance(v, Top):
            return v
        return self.unknown("Eigen matrix from %r" % type(v), [])

    def vec_ctor(self, t, args, tu):
        if not args:
            return Vec(())
        vs = [self.rv(a) for a in args]
        if isinstance(vs[0], It):
            return Vec(self.range_vals(vs[0], vs[1]))
        if isinstance(vs[0], Ptr):
            return Vec(self.load(r) for r in self.it_refs(vs[0], vs[1]))
        if isinstance(vs[0], Vec):
            return vs[0]
        if isinstance(vs[0], Arr):
            return Vec(vs[0].d[i] for i in range(vs[0].n))
        if isinstance(vs[0], Obj) and "list" in vs[0].f:
            return vs[0].f["list"]
        if isinstance(vs[0], Gam):
            return self.lift1(vs[0], lambda x: x)
        if is_scalar(vs[0]):
            n = self.dim(vs[0])
            et = self.prog.tus[tu][t["a"][0]["t"]]
            if n < 0 or n > 10 ** 6:
                raise Abort("vector size %d at %s" % (n, self.here()))
            if len(vs) > 1 and not (isinstance(vs[1], Obj) and "allocator" in vs[1].t):
                return Vec([vs[1]] * n)
            return Vec(self.default(et, tu, True) for _ in range(n))
        if isinstance(vs[0], Top):
            return vs[0]
        return self.unknown("vector constructor", args)

    def range_vals(self, a, b):
        if isinstance(a, Ptr):
            return [self.load(r) for r in self.it_refs(a, b)]
        if a.kind in ("map", "rmap"):
            m = self.load(a.ref)
            ks = m.keys()[a.i:b.i] if a.kind == "map" else list(reversed(m.keys()[b.i:a.i]))
            return [Obj("std::pair", {"first": k, "second": m.d[k]}) for k in ks]
        v = self.load(a.ref)
        if isinstance(v, Gam):
            raise Abort("iteration over merged container at %s" % self.here())
        if isinstance(v, Mat):
            items = v.d
        elif isinstance(v, Vec):
            items = v.v
        elif isinstance(v, Arr):
            items = [self.getel(v, ("i", i)) for i in range(v.n)]
        else:
            raise Abort("iterator range over %r at %s" % (type(v), self.here()))
        if a.kind in ("rev", "rmap"):
            return [items[i - 1] for i in range(a.i, b.i, -1)]
        if a.i < 0 or b.i > len(items) or b.i < a.i:
            self.event("oob", "iterator range [%d,%d) of a container of size %d" % (a.i, b.i, len(items)))
        return list(items[max(a.i, 0):max(b.i, 0)])

    # -------------------------------------------------------- models
    def model(self, e, fn, n, obj, args):
        b = n.split("::")[-1]
        if b.startswith("operator") and not b[8:9].isalnum() and b[8:9] not in ("_", " "):
            r = self.operator(e, fn, b[8:], obj, args)
            if r is not NotImplemented:
                return r
        if b.startswith("operator ") and obj is not None:
            # conversion operator
            v = self.rv(obj)
            if isinstance(v, Obj) and "list" in v.f:
                t = self.ty(e["t"])
                if t.get("n") in ("std::map",):
                    d = {}
                    for p in v.f["list"].v:
                        d.setdefault(p.f["first"], p.f["second"])
                    return MapV(d)
                return v.f["list"]
            if isinstance(v, Mat) and v.r == 1 and v.c == 1 and self.ty(e["t"])["k"] == "float":
                return v.d[0]
            return v
        cls = self.ty(fn["cls"]) if "cls" in fn else None
        cn = cls.get("n", "") if cls else ""
        if n.startswith("Eigen::") or cn.startswith("Eigen::"):
            if obj is not None:
                return self.eig_method(e, fn, b, obj, args)
            return self.eig_static(e, fn, b, args)
        if n.startswith("std::") or n.startswith("__gnu_cxx::"):
            if obj is not None:
                return self.std_method(e, fn, cn, b, obj, args)
            return self.std_func(e, fn, n, b, args)
        if n.startswith("ndcurves::"):
            return self.curve_method(e, fn, n, b, obj, args)
        if n == "boost::assign::map_list_of":
            return Obj("list_of", {"list": Vec([Obj("std::pair", {"first": self.rv(args[0]), "second": self.rv(args[1])})])})
        if obj is not None and cn.startswith("boost::assign"):
            v = self.rv(obj)
            if b in ("to_container", "convert", "operator()") and isinstance(v, Obj):
                return v
        if "::" not in n or n.startswith("__builtin"):
            return self.std_func(e, fn, n, b, args)
        d = self.hooks.get("@extern")
        if d is not None:
            r = d(self, e, fn, n, obj, args)
            if r is not NotImplemented:
                return r
        return self.unknown(n, args)

    # -------------------------------------------------------- operators
    def operator(self, e, fn, op, obj, args):
        ops = ([obj] if obj is not None else []) + list(args)
        if op == "()":
            return self.op_call(e, fn, obj if obj is not None else args[0], args if obj is not None else args[1:])
        if op == "[]":
            return self.op_index(ops[0], self.rv(ops[1]), fn)
        if op == "=":
            return self.op_assign(ops[0], ops[1], fn)
        if op in ("+=", "-=", "*=", "/=", "|=", "&=", "^="):
            cur = self.rv(ops[0])
            rhs = self.rv(ops[1])
            w = None
            if isinstance(cur, Wise):
                return self.wise_op(cur, op[0], rhs)
            if isinstance(cur, (Str, str)):
                if op == "+=" and isinstance(ops[0], Ref):
                    self.store(ops[0], Str(cur + rhs) if isinstance(rhs, str) else Str(cur + chr(rhs)) if isinstance(rhs, int) else cur)
                return ops[0]
            nv = self.vop(op[:-1], cur, rhs)
            if isinstance(nv, Top) and isinstance(cur, Mat):
                nv = Mat(cur.r, cur.c, [nv] * len(cur.d))
            if isinstance(nv, Mat):
                nv = Mat(nv.r, nv.c, nv.d, [self.loc] * len(nv.d))
            if isinstance(cur, It):
                nv = It(cur.ref, cur.i + (rhs if op == "+=" else -rhs), cur.kind)
            if isinstance(ops[0], Ref):
                self.store(ops[0], nv)
            return ops[0]
        if op in ("++", "--"):
            x = ops[0]
            v = self.rv(x)
            if isinstance(v, It):
                d = 1 if op == "++" else -1
                if v.kind in ("rev", "rmap"):
                    d = -d
                nv = It(v.ref, v.i + d, v.kind)
                self.store(x, nv)
                return v if len(ops) > 1 else x
            if isinstance(v, Inserter):
                return x
            if isinstance(v, (Ptr,)):
                nv = self.ptradd(v, 1 if op == "++" else -1)
                self.store(x, nv)
                return v if len(ops) > 1 else x
            return NotImplemented
        if op in ("*", "->") and len(ops) == 1 and isinstance(ops[0], Ref) and isinstance(self.rv(ops[0]), Obj) and self.rv(ops[0]).t == "std::optional":
            if "v" not in self.rv(ops[0]).f:
                self.event("null", "value of an empty std::optional")
                r = self.new(Top("empty optional"))
            else:
                r = ops[0].sub(("f", "v"))
            return r if op == "*" else Ptr(r)
        if op == "*" and len(ops) == 1:
            return self.deref(self.rv(ops[0]))
        if op == "->":
            v = self.rv(ops[0])
            if isinstance(v, It):
                return Ptr(self.itref(v))
            if isinstance(v, Obj) and v.t == "std::optional":
                return Ptr(self.deref(v))
            return v
        if op == "<<":
            a = self.rv(ops[0])
            if isinstance(a, Mat):
                return self.comma(Comma(ops[0], 0, 0, 0), ops[1])
            if isinstance(a, Gam):
                return self.unknown("comma initialisation of merged matrix", args)
            return ops[0]  # stream
        if op == ">>":
            return ops[0]
        if op == ",":
            a = self.rv(ops[0])
            if isinstance(a, Comma):
                return self.comma(a, ops[1])
            return ops[1]
        if op == "!":
            return bnot(self.boolv(self.rv(ops[0])))
        if op == "-" and len(ops) == 1:
            v = self.rv(ops[0])
            if isinstance(v, Obj):
                return scl(v, -1)
            return self.neg(v)
        if op in ("==", "!=", "<", ">", "<=", ">="):
            a, b = self.rv(ops[0]), self.rv(ops[1])
            if isinstance(a, Mat) and is_scalar(b) or isinstance(b, Mat) and is_scalar(a) or (isinstance(a, Mat) and isinstance(b, Mat) and op not in ("==", "!=")):
                m = a if isinstance(a, Mat) else b
                g = lambda x, i: x.d[i] if isinstance(x, Mat) else x
                return Mat(m.r, m.c, [self.cmp(op, g(a, i), g(b, i)) for i in range(len(m.d))])
            return self.cmp(op, a, b)
        if op in ("+", "-", "*", "/"):
            a, b = self.rv(ops[0]), self.rv(ops[1])
            if isinstance(a, It) and is_scalar(b):
                k = self.dim(b)
                if a.kind in ("rev", "rmap"):
                    k = -k
                return It(a.ref, a.i + (k if op == "+" else -k), a.kind)
            if isinstance(a, It) and isinstance(b, It) and op == "-":
                return a.i - b.i
            if isinstance(a, (Str, str)) or isinstance(b, (Str, str)):
                x, y = (k if isinstance(k, str) else chr(k) if isinstance(k, int) and 0 < k < 256 else "" for k in (a, b))
                return Str(x + y)
            if isinstance(a, Wise):
                return self.wise_val(a, op, b)
            return self.vop(op, a, b, self.is_array(e, fn, ops))
        if op in ("&", "|", "^", "~"):
            vs = [self.rv(o) for o in ops]
            if len(vs) == 2:
                if isinstance(vs[0], Mat) and isinstance(vs[1], Mat):
                    f = band if op == "&" else bor
                    return Mat(vs[0].r, vs[0].c, [f(x, y) for x, y in zip(vs[0].d, vs[1].d)])
                return self.binop(op, vs[0], vs[1], {"k": "int"})
        if op in ("&&", "||"):
            a, b = self.rv(ops[0]), self.rv(ops[1])
            if isinstance(a, Mat) and isinstance(b, Mat):
                f = band if op == "&&" else bor
                return Mat(a.r, a.c, [f(x, y) for x, y in zip(a.d, b.d)])
            f = band if op == "&&" else bor
            return f(self.boolv(a), self.boolv(b))
        return NotImplemented

    def is_array(self, e, fn, ops):
        """coefficient-wise product? decided from the declared class of the operator"""
        n = fn["n"]
        return "ArrayBase" in n or "Array" in self.ty(fn["cls"]).get("n", "") if "cls" in fn else "ArrayBase" in n

    def vop(self, op, a, b, cw=False):
        if isinstance(a, Gam):
            a = self.pick(a)
        if isinstance(b, Gam):
            b = self.pick(b)
        if isinstance(a, Gam):
            return gval(a.c, self.vop(op, a.a, b, cw), self.vop(op, a.b, b, cw))
        if isinstance(b, Gam):
            return gval(b.c, self.vop(op, a, b.a, cw), self.vop(op, a, b.b, cw))
        if isinstance(a, Top):
            return a
        if isinstance(b, Top):
            return b
        if op in ("+", "-"):
            if isinstance(a, Mat) and is_scalar(b):
                f = ADD if op == "+" else SUB
                return Mat(a.r, a.c, [f(sc(x), sc(b)) for x in a.d])
            if isinstance(b, Mat) and is_scalar(a):
                f = ADD if op == "+" else SUB
                return Mat(b.r, b.c, [f(sc(a), sc(x)) for x in b.d])
            if isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) != (b.r, b.c):
                self.event("dim", "%dx%d %s %dx%d" % (a.r, a.c, op, b.r, b.c))
            r = lin(op, a, b)
            if isinstance(r, Mat):
                r.l = [self.loc] * len(r.d)
            return r
        if op == "*":
            if isinstance(a, Mat) and isinstance(b, Mat):
                if cw:
                    if (a.r, a.c) != (b.r, b.c):
                        self.event("dim", "coefficient wise product of %dx%d by %dx%d" % (a.r, a.c, b.r, b.c))
                        return Top("product size mismatch")
                    return Mat(a.r, a.c, [MUL(sc(x), sc(y)) for x, y in zip(a.d, b.d)])
                if a.c != b.r:
                    self.event("dim", "product of %dx%d by %dx%d" % (a.r, a.c, b.r, b.c))
                    return Top("product size mismatch")
                if a.r == b.c == 1:
                    return Mat(1, 1, [dot(a, b)])
                return mmul(a, b, self.loc)
            if isinstance(a, Mat):
                return scl(a, sc(b))
            if isinstance(b, Mat):
                return scl(b, sc(a))
            if isinstance(a, Obj):
                return scl(a, sc(b))
            if isinstance(b, Obj):
                return scl(b, sc(a))
            return MUL(sc(a), sc(b))
        if op == "/":
            if isinstance(a, Mat) and isinstance(b, Mat):
                return Mat(a.r, a.c, [DIV(sc(x), sc(y)) for x, y in zip(a.d, b.d)])
            if isinstance(a, Mat):
                i = INV(sc(b)) if not isnum(sc(b)) else None
                if i is None:
                    return Mat(a.r, a.c, [DIV(sc(x), sc(b)) for x in a.d])
                return scl(a, i)
            if isinstance(a, Obj):
                return scl(a, INV(sc(b)))
            if isinstance(b, Mat):
                return Mat(b.r, b.c, [DIV(sc(a), sc(x)) for x in b.d])
            return DIV(sc(a), sc(b))
        if op in ("|", "&", "^"):
            return self.binop(op, a, b, {"k": "int"})
        raise Abort("vop %s" % op)

    def op_call(self, e, fn, obj, args):
        v = self.rv(obj)
        if isinstance(v, Gam):
            v = self.pick(v)
        if isinstance(v, (Clo, FnV, Bound, MPtr)):
            return self.apply(v, args)
        if isinstance(v, Ptr) and v.ref is not None and isinstance(self.load(v.ref), (Clo, FnV, Bound)):
            return self.apply(self.load(v.ref), args)
        if isinstance(v, Mat):
            idx = [self.rv(a) for a in args]
            if any(isinstance(i, (Obj, Vec)) for i in idx):
                return self.mat_idx(obj, v, idx)
            return self.mat_at(obj, v, idx)
        if isinstance(v, Obj):
            if v.t == "list_of":
                l = v.f["list"]
                return Obj("list_of", {"list": Vec(l.v + (Obj("std::pair", {"first": self.rv(args[0]), "second": self.rv(args[1])}),))})
            if v.t.startswith("ndcurves::"):
                return self.curve_eval(v, [self.rv(a) for a in args])
        if isinstance(v, Top):
            return v
        if isinstance(v, Gam):
            if isinstance(v.a, (Clo, FnV)):
                return self.apply(v, args)
            idx = [self.rv(a) for a in args]
            return self.lift1(v, lambda x: self.rv(self.mat_at(self.new(x), x, idx)))
        return self.unknown("operator() on %r" % (type(v).__name__,), args)

    def mat_at(self, obj, v, idx):
        for i in idx:
            if isinstance(i, (Poly, Top, Gam)):
                return Top("symbolic matrix index")
        idx = [self.dim(i) for i in idx]
        if len(idx) == 1:
            if v.c == 1:
                el = ("e", idx[0], 0)
            elif v.r == 1:
                el = ("e", 0, idx[0])
            else:
                # linear index into column-major storage
                el = ("e", idx[0] % v.r if v.r else 0, idx[0] // v.r if v.r else 0)
        else:
            el = ("e", idx[0], idx[1])
        if isinstance(obj, Ref):
            return obj.sub(el)
        return self.getel(v, el)

    def mat_idx(self, obj, v, idx):
        """block given by ranges of indices"""
        out = []
        for k, i in enumerate(idx):
            n = len(v.d) if len(idx) == 1 else (v.r, v.c)[k]
            if isinstance(i, Obj) and i.t == "Eigen::seq":
                s, m = i.f["s"], i.f["n"]
            elif isinstance(i, int):
                s, m = i, 1
            else:
                return self.unknown("matrix indexed by %s" % type(i).__name__, [])
            out.append((s, m))
        if len(out) == 1:
            out = [out[0], (0, 1)] if v.c == 1 else [(0, 1), out[0]]
        el = ("b", out[0][0], out[1][0], out[0][1], out[1][1])
        return obj.sub(el) if isinstance(obj, Ref) else self.getel(v, el)

    def rowmajor(self, t):
        a = (t or {}).get("a", [])
        return len(a) > 3 and "i" in (a[3] or {}) and bool(a[3]["i"] & 1)

    def op_index(self, obj, i, fn=None):
        v = self.rv(obj)
        if isinstance(v, Gam):
            v = self.pick(v)
        if isinstance(v, Top):
            return v
        if isinstance(v, Mat):
            return self.mat_at(obj, v, [i])
        if isinstance(v, MapV):
            if isinstance(i, Top):
                return i
            if i not in v.d:
                d = dict(v.d)
                d[i] = 0
                t = self.ty(fn["cls"]) if fn and "cls" in fn else {}
                if len(t.get("a", [])) > 1 and "t" in t["a"][1]:
                    d[i] = self.default(self.ty(t["a"][1]["t"]), self.frames[-1].tu, True)
                if isinstance(obj, Ref):
                    self.store(obj, MapV(d))
            return obj.sub(("k", i)) if isinstance(obj, Ref) else v.d.get(i)
        if isinstance(v, It):
            return self.itref(self.itadv(v, i))
        if isinstance(v, (Str, str)) and isinstance(i, int):
            return ord(v[i]) if 0 <= i < len(v) else 0
        if isinstance(i, (Poly, Top, Gam)):
            if isinstance(i, Poly):
                self.unset(i, "index is")
            return Top("symbolic index")
        if isinstance(v, (Vec, Arr)):
            i = self.dim(i)
            if isinstance(obj, Ref):
                n = len(v.v) if isinstance(v, Vec) else v.n
                if not 0 <= i < n:
                    self.event("oob", "index %d outside container of size %d" % (i, n))
                    return self.new(Top("out of bounds"))
                return obj.sub(("i", i))
            return self.getel(v, ("i", i))
        if isinstance(v, Ptr):
            return self.ptradd(v, self.dim(i)).ref
        if isinstance(v, Gam):
            i = self.dim(i)
            if isinstance(obj, Ref):
                return obj.sub(("i", i))
            return self.getel(v, ("i", i))
        return self.unknown("operator[] on %s" % type(v).__name__, [])

    def op_assign(self, l, r, fn):
        v = self.rv(r)
        if isinstance(l, Ref) is False:
            w = self.rv(l)
            if isinstance(w, Wise):
                if isinstance(v, Mat) and w.ref is not None:
                    m = w.val
                    rows = w.ax == "r"
                    if len(v.d) != (m.c if rows else m.r):
                        self.event("dim", "assignment of %d values to each %s of a %dx%d matrix" % (len(v.d), "row" if rows else "column", m.r, m.c))
                        return l
                    self.store(w.ref, Mat(m.r, m.c, [v.d[j if rows else i] for i in range(m.r) for j in range(m.c)], [self.loc] * (m.r * m.c)))
                    return l
                return self.unknown("assignment to each row or column", [r])
            if isinstance(w, Inserter):
                self.std_push(w.ref, v)
                return l
            if isinstance(w, Obj) and w.t == "std::tie":
                if isinstance(v, Gam):
                    v = self.pick(v)
                if not isinstance(v, Obj) or len(v.f) != len(w.f):
                    return self.unknown("assignment to std::tie", [r])
                for p, x in zip(w.f.values(), list(v.f.values())):
                    if isinstance(p, Ptr) and p.ref is not None:
                        self.op_assign(p.ref, x, {})
                return l
            return self.unknown("assignment to a temporary %s" % type(w).__name__, [r])
        cur = self.load(l)
        if isinstance(r, Ref) and r != l and fn.get("p") and fn.get("n", "").endswith("::operator=") and self.ty(fn["p"][0])["k"] == "rref" and "cls" in fn:
            t = self.ty(fn["cls"])
            if t.get("n") == "Eigen::Matrix" and isinstance(cur, Mat) and isinstance(v, Mat):
                # the move assignment of a matrix exchanges the storage
                if self.moved(v, t, self.frames[-1].tu) is not None:
                    self.store(r, cur)
            else:
                self.move_from(r, t, self.frames[-1].tu)
        if isinstance(v, Comma):
            v = self.load(v.ref)
        if isinstance(cur, Mat) and isinstance(v, Mat) and (cur.r, cur.c) != (v.r, v.c):
            t = self.ty(fn["cls"]) if "cls" in fn else None
            dyn = (not l.path) or l.path[-1][0] in ("f", "i", "mk", "k")
            if dyn and t is not None and t.get("n", "").split("::")[-1] in EIGEN_DENSE:
                v = self.convert(v, t, self.frames[-1].tu)
            elif dyn:
                pass
            elif (v.c, v.r) == (cur.r, cur.c) and 1 in (v.r, v.c):
                v = Mat(cur.r, cur.c, v.d, v.l)
            else:
                self.event("dim", "assignment of %dx%d to %dx%d" % (v.r, v.c, cur.r, cur.c))
                return l
        if isinstance(cur, Obj) and cur.t == "std::optional" and not isinstance(v, (Top, Gam)):
            t = self.ty(fn["cls"]) if "cls" in fn else None
            if t is not None and t.get("n") == "std::optional":
                v = self.optional(v, t, self.frames[-1].tu)
        if is_scalar(v) and isinstance(cur, Mat):
            v = fill(cur.r, cur.c, sc(v))
        if isinstance(cur, Mat) and isinstance(v, Mat):
            v = Mat(v.r, v.c, v.d, [x if x is not None else self.loc for x in v.l])
        self.store(l, v)
        return l

    # -------------------------------------------------------- comma initialiser
    def comma(self, cm, x):
        v = self.rv(x)
        m = self.load(cm.ref)
        if isinstance(v, Mat):
            if cm.c >= m.c and m.c > 0:
                cm = Comma(cm.ref, cm.r + cm.h, 0, 0)
            r0, c0 = cm.r, cm.c
            self.store(cm.ref.sub(("b", r0, c0, v.r, v.c)), v)
            return Comma(cm.ref, r0, c0 + v.c, v.r)
        r0, c0 = cm.r, cm.c
        if c0 >= m.c:
            r0, c0 = cm.r + max(cm.h, 1), 0
        self.store(cm.ref.sub(("e", r0, c0)), sc(v))
        return Comma(cm.ref, r0, c0 + 1, 1)

    # -------------------------------------------------------- Eigen
    def eig_static(self, e, fn, b, args):
        t = self.ty(fn["cls"]) if "cls" in fn else None
        vs = [self.rv(a) for a in args]
        if b == "NullaryExpr" and len(vs) in (1, 2, 3) and isinstance(vs[-1], (Clo, FnV, Bound, Obj)):
            while t.get("a") and "t" in t["a"][0] and t["n"].split("::")[-1] not in EIGEN_DENSE:
                t = self.ty(t["a"][0]["t"])
            r, c = self.eigdims(t)
            if len(vs) == 3:
                r, c = self.dim(vs[0]), self.dim(vs[1])
            elif len(vs) == 2:
                r, c = (1, self.dim(vs[0])) if r == 1 else (self.dim(vs[0]), 1)
            f = vs[-1]
            m = self.prog.funcs.get(getattr(f, "u", None))
            lin = (len(m["p"]) if m else 1) == 1
            return Mat(r, c, [self.rv(self.apply(f, [i + j] if lin and 1 in (r, c) else [i, j])) for i in range(r) for j in range(c)])
        if "cls" in fn and b in ("Zero", "Ones", "Identity", "Constant", "Random", "UnitX", "UnitY", "UnitZ", "Unit", "LinSpaced"):
            # class is a CRTP base: its first template argument is the matrix type
            while t.get("a") and "t" in t["a"][0] and t["n"].split("::")[-1] not in EIGEN_DENSE:
                t = self.ty(t["a"][0]["t"])
            r, c = self.eigdims(t)
            if b == "Constant":
                dims, val = vs[:-1], vs[-1]
            elif b in ("UnitX", "UnitY", "UnitZ"):
                return Mat(r, c, [1 if i == "XYZ".index(b[-1]) else 0 for i in range(r * c)])
            elif b == "Unit":
                i = self.dim(vs[-1])
                n = r * c if len(vs) == 1 else self.dim(vs[0])
                return Mat(n if c == 1 else 1, 1 if c == 1 else n, [1 if k == i else 0 for k in range(n)])
            elif b == "LinSpaced":
                n = self.dim(vs[0]) if len(vs) == 3 else r * c
                lo, hi = vs[-2], vs[-1]
                return Mat(n, 1, [ADD(lo, MUL(SUB(hi, lo), i / (n - 1.0))) for i in range(n)])
            else:
                dims = vs
            if len(dims) == 2:
                r, c = self.dim(dims[0]), self.dim(dims[1])
            elif len(dims) == 1:
                n = self.dim(dims[0])
                if r == 1 and c != 1:
                    c = n
                else:
                    r = n
                    c = max(c, 1)
            if r < 0 or c < 0:
                self.event("dim", "negative matrix size")
                r, c = max(r, 0), max(c, 0)
            if b == "Zero":
                return fill(r, c, 0, self.loc)
            if b == "Ones":
                return fill(r, c, 1, self.loc)
            if b == "Identity":
                return eye(r, c, self.loc)
            if b == "Constant":
                return fill(r, c, sc(val), self.loc)
            self.event("random", "Eigen Random")
            return Mat(r, c, [P.fresh("rand", "random") for _ in range(r * c)])
        if b in ("seq", "seqN") and all(isinstance(x, int) for x in vs):
            if b == "seq" and len(vs) == 2:
                return Obj("Eigen::seq", {"s": vs[0], "n": max(vs[1] - vs[0] + 1, 0)})
            if b == "seqN" and len(vs) == 2:
                return Obj("Eigen::seq", {"s": vs[0], "n": vs[1]})
        if b == "Map" and "cls" in fn and vs and isinstance(vs[0], Ptr):
            while t.get("a") and "t" in t["a"][0] and t["n"].split("::")[-1] not in EIGEN_DENSE:
                t = self.ty(t["a"][0]["t"])
            r, c = self.eigdims(t)
            dims = [self.dim(x) for x in vs[1:] if is_scalar(x)]
            if len(dims) == len(vs) - 1:
                if len(dims) == 2:
                    r, c = dims
                elif len(dims) == 1:
                    r, c = (1, dims[0]) if r == 1 else (dims[0], 1)
                p = vs[0] if vs[0].ref is not None and vs[0].ref.path and vs[0].ref.path[-1][0] in ("i", "ic") else self.ptradd(vs[0], 0)
                if p.ref is not None and p.ref.path and p.ref.path[-1][0] in ("i", "ic"):
                    k = p.ref.path[-1]
                    si, sj = (c, 1) if self.rowmajor(t) else (1, r)
                    if 1 in (r, c):
                        si = sj = 1
                    return Ref(p.ref.cell, p.ref.path[:-1] + (("map", k[0], k[1], r, c, si, sj),))
        if b in ("sqrt", "abs", "pow", "abs2", "square"):
            v = vs[0]
            if isinstance(v, Mat):
                f = {"sqrt": SQRT, "abs": P.absv, "abs2": lambda x: MUL(x, x), "square": lambda x: MUL(x, x)}.get(b)
                if f:
                    return Mat(v.r, v.c, [f(sc(x)) for x in v.d])
                if b == "pow":
                    return Mat(v.r, v.c, [self.powf(sc(x), vs[1]) for x in v.d])
        if b == "dummy_precision":
            return 1e-12
        if b == "epsilon":
            return getattr(self, "eps", 2.220446049250313e-16)
        return self.unknown("Eigen static %s" % fn["n"], args)

    def cholesky(self, m):
        """lower factor of a symmetric positive definite matrix, exact; None when a pivot is not provably positive"""
        n = m.r
        L = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1):
                s = sc(m.d[i * n + j])
                for k in range(j):
                    s = SUB(s, MUL(L[i][k], L[j][k]))
                if i == j:
                    if P.sign(s) != 1:
                        return None
                    L[i][i] = SQRT(s)
                else:
                    L[i][j] = DIV(s, L[j][j])
        return Mat(n, n, [L[i][j] for i in range(n) for j in range(n)])

    def trisolve(self, m, upper, unit, b):
        """x with T x = b, T the triangle of m"""
        n = m.r
        if m.r != m.c or b.r != n:
            self.event("dim", "triangular %dx%d system with %d rows on the right" % (m.r, m.c, b.r))
            return Mat(b.r, b.c, [Top("triangular solve sizes")] * (b.r * b.c))
        x = list(b.d)
        for c in range(b.c):
            for i in (range(n - 1, -1, -1) if upper else range(n)):
                s = sc(x[i * b.c + c])
                for j in (range(i + 1, n) if upper else range(i)):
                    s = SUB(s, MUL(sc(m.d[i * n + j]), x[j * b.c + c]))
                if not unit:
                    d = sc(m.d[i * n + i])
                    if isinstance(d, Top) or not P.nonzero(d):
                        s = Top("division by a diagonal entry that may vanish")
                    else:
                        s = DIV(s, d)
                x[i * b.c + c] = s
        return Mat(b.r, b.c, x)

    def tri_method(self, v, fn, b, args):
        m = self.rv(v.m)
        if isinstance(m, Gam):
            m = self.pick(m)
        if not isinstance(m, Mat):
            return self.unknown("triangular view of %s" % type(m).__name__, args)
        if b in ("transpose", "adjoint"):
            return Tri(Mat(m.c, m.r, [m.d[i * m.c + j] for j in range(m.c) for i in range(m.r)]), not v.upper, v.unit)
        if b in ("solve", "solveInPlace"):
            w = self.rv(args[0])
            if not isinstance(w, Mat):
                return self.unknown("triangular solve with %s" % type(w).__name__, args)
            x = self.trisolve(m, v.upper, v.unit, w)
            if b == "solve":
                return x
            self.store(args[0], x)
            return VOID
        if b in ("toDenseMatrix", "eval", "operator*", "toDense"):
            d = [(1 if i == j and v.unit else m.d[i * m.c + j]) if i == j or (j > i) == v.upper else 0 for i in range(m.r) for j in range(m.c)]
            t = Mat(m.r, m.c, d)
            return self.vop("*", t, self.rv(args[0])) if b == "operator*" else t
        return self.unknown("triangular view method %s" % b, args)

    def factor(self, v, m):
        """the sparse factorisation chooses its own order of the variables unless told otherwise: the reverse one here,
        for the diagonal matrices (whose factor stays simple)"""
        rev = v.f.get("rev", False) and isinstance(m, Mat) and all(P.isnum(x) and x == 0 for i, x in enumerate(m.d) if i // m.c != i % m.c)
        if isinstance(m, Mat) and m.r == m.c and rev:
            m = Mat(m.r, m.c, list(reversed(m.d)))
        return Obj("Eigen::LLT", {"m": self.cholesky(m) if isinstance(m, Mat) and m.r == m.c else None, "rev": v.f.get("rev", False), "on": rev})

    def llt_method(self, obj, v, fn, b, args):
        rev = v.f.get("on", False)
        if b in ("compute", "factorize"):
            self.store(obj, self.factor(v, self.rv(args[0])))
            return obj
        if b == "analyzePattern":
            return VOID
        L = v.f.get("m")
        if L is None:
            return Top("factor of a matrix not known to be positive definite")
        if b == "info":
            return 0
        if b == "matrixL":
            return Tri(L, False)
        if b == "matrixU":
            return Tri(Mat(L.c, L.r, [L.d[i * L.c + j] for j in range(L.c) for i in range(L.r)]), True)
        if b == "matrixLLT":
            return L
        if b in ("solve", "solveInPlace"):
            w = self.rv(args[0])
            if isinstance(w, Mat):
                def flip(a):
                    return Mat(a.r, a.c, [a.d[i * a.c + j] for i in range(a.r - 1, -1, -1) for j in range(a.c)]) if rev else a
                y = self.trisolve(L, False, False, flip(w))
                x = self.trisolve(Mat(L.c, L.r, [L.d[i * L.c + j] for j in range(L.c) for i in range(L.r)]), True, False, y)
                x = flip(x)
                if b == "solve":
                    return x
                self.store(args[0], x)
                return VOID
        return self.unknown("LLT %s" % b, args)

    def targ_i(self, fn):
        return [x["i"] for x in fn.get("a", []) if x and "i" in x]

    def eig_method(self, e, fn, b, obj, args):
        v = self.rv(obj)
        if isinstance(v, Gam):
            v = self.pick(v)
        lv = isinstance(obj, Ref)
        vs = [self.rv(a) for a in args]
        if isinstance(v, Wise):
            return self.wise_method(v, b, vs)
        if isinstance(v, Comma):
            return self.load(v.ref)
        if isinstance(v, Gam):
            return self.lift_method(e, fn, b, obj, v, args)
        if isinstance(v, Top):
            return v
        if isinstance(v, Tri):
            return self.tri_method(v, fn, b, args)
        if isinstance(v, Obj) and v.t == "Eigen::LLT":
            return self.llt_method(obj, v, fn, b, args)
        if not isinstance(v, Mat):
            h = self.hooks.get("@eigen")
            if h is not None:
                r = h(self, e, fn, b, obj, v, vs)
                if r is not NotImplemented:
                    return r
            return self.unknown("Eigen method %s on %s" % (b, type(v).__name__), args)

        def view(el):
            if lv:
                return obj.sub(el)
            return self.getel(v, el)
        if b == "rows":
            return v.r
        if b == "cols":
            return v.c
        if b == "size":
            return len(v.d)
        if b in ("outerSize",):
            return v.c
        if b in ("innerSize",):
            return v.r
        if b in ("operator()", "coeff", "coeffRef"):
            return self.mat_at(obj, v, vs)
        if b in ("x", "y", "z", "w"):
            return self.mat_at(obj, v, ["xyzw".index(b)])
        if b in ("array", "matrix", "noalias", "derived", "const_cast_derived", "lazyAssign", "sparseView", "nestedExpression", "selfadjointView", "real", "conjugate"):
            return obj
        if b == "eval":
            return v
        if b in ("transpose", "adjoint"):
            return view(("T",))
        if b == "triangularView":
            k = self.targ_i(fn)[0]
            return Tri(obj if lv else v, bool(k & 2), bool(k & 4))
        if b == "llt":
            return Obj("Eigen::LLT", {"m": self.cholesky(v)})
        if b == "diagonal":
            k = self.targ_i(fn)
            return view(("diag", self.dim(vs[0]) if vs else k[0] if k else 0))
        if b == "reshaped":
            r, c = (self.dim(vs[0]), self.dim(vs[1])) if len(vs) == 2 else (len(v.d), 1)
            if len(vs) in (0, 2) and r * c == len(v.d) and not self.targ_i(fn):
                return view(("rs", r, c))
        if b == "setLinSpaced":
            n = self.dim(vs[0]) if len(vs) == 3 else len(v.d)
            lo, hi = sc(vs[-2]), sc(vs[-1])
            d = [ADD(lo, MUL(SUB(hi, lo), i / (n - 1.0))) if n > 1 else hi for i in range(n)]
            if lv:
                self.store(obj, Mat(1, n, d) if v.r == 1 and v.c != 1 else Mat(n, 1, d))
            return obj
        if b in ("transposeInPlace", "adjointInPlace", "reverseInPlace"):
            m = mat_t(v) if b != "reverseInPlace" else Mat(v.r, v.c, list(reversed(v.d)))
            if lv:
                self.store(obj, m)
            return VOID
        if b == "redux":
            acc = v.d[0]
            for x in v.d[1:]:
                acc = self.rv(self.apply(vs[0], [acc, x]))
            return acc
        if b in ("isConstant", "isApproxToConstant", "isOnes", "isIdentity"):
            w = vs[0] if "onstant" in b else 1
            r = True
            for i, x in enumerate(v.d):
                y = w if b != "isIdentity" else int(i // v.c == i % v.c)
                r = band(r, abs(x - y) <= 1e-12 * max(1, min(abs(x), abs(y))) if isnum(x) and isnum(y) else eq0(SUB(sc(x), sc(y))))
            return r
        if b in ("applyOnTheLeft", "applyOnTheRight") and len(vs) == 1:
            m = self.vop("*", vs[0], v) if b.endswith("Left") else self.vop("*", v, vs[0])
            if lv:
                self.store(obj, m)
            return VOID
        if b == "cwiseEqual" or b == "cwiseNotEqual":
            w = vs[0]
            return Mat(v.r, v.c, [self.cmp("==" if b == "cwiseEqual" else "!=", x, w.d[i] if isinstance(w, Mat) else w) for i, x in enumerate(v.d)])
        if b == "cwiseSign" or b == "sign" and "Array" in fn["n"]:
            if all(isnum(x) for x in v.d):
                return Mat(v.r, v.c, [(x > 0) - (x < 0) for x in v.d])
        if b == "homogeneous" and v.c == 1:
            return Mat(v.r + 1, 1, list(v.d) + [1])
        if b == "asDiagonal":
            n = len(v.d)
            return Mat(n, n, [v.d[i] if i == j else 0 for i in range(n) for j in range(n)])
        ti = self.targ_i(fn)
        d = None

        def dimarg(k):
            return self.dim(vs[k])
        R, C = v.r, v.c
        if b == "block":
            if len(vs) == 4:
                d = (dimarg(0), dimarg(1), dimarg(2), dimarg(3))
            else:
                d = (dimarg(0), dimarg(1), ti[0], ti[1])
        elif b in ("segment", "head", "tail"):
            n = ti[0] if ti and ti[0] >= 0 and len(vs) < (2 if b == "segment" else 1) else dimarg(len(vs) - 1)
            s = dimarg(0) if b == "segment" else (0 if b == "head" else max(R, C) - n)
            if b == "tail" and s < 0:
                self.event("oob", "tail(%d) of a vector of size %d" % (n, max(R, C)))
            d = (s, 0, n, 1) if C == 1 else (0, s, 1, n)
            if C == 1 and R == 1:
                d = (s, 0, n, 1)
        elif b == "topRows":
            n = dimarg(0) if vs else ti[0]
            d = (0, 0, n, C)
        elif b == "bottomRows":
            n = dimarg(0) if vs else ti[0]
            d = (R - n, 0, n, C)
        elif b == "leftCols":
            n = dimarg(0) if vs else ti[0]
            d = (0, 0, R, n)
        elif b == "rightCols":
            n = dimarg(0) if vs else ti[0]
            d = (0, C - n, R, n)
        elif b == "middleRows":
            n = dimarg(1) if len(vs) > 1 else ti[0]
            d = (dimarg(0), 0, n, C)
        elif b == "middleCols":
            n = dimarg(1) if len(vs) > 1 else ti[0]
            d = (0, dimarg(0), R, n)
        elif b in ("topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner"):
            nr, nc = (dimarg(0), dimarg(1)) if vs else (ti[0], ti[1])
            d = (0 if b.startswith("top") else R - nr, 0 if "Left" in b else C - nc, nr, nc)
        elif b == "row":
            d = (dimarg(0), 0, 1, C)
        elif b == "col":
            d = (0, dimarg(0), R, 1)
        if d is not None:
            return view(("b",) + d)
        if b in ("setZero", "setOnes", "setConstant", "setIdentity", "fill", "setRandom"):
            dims = vs
            val = {"setZero": 0, "setOnes": 1}.get(b)
            if b in ("setConstant", "fill"):
                dims, val = vs[:-1], sc(vs[-1])
            if dims:
                if len(dims) == 1:
                    r, c = (self.dim(dims[0]), 1) if not (R == 1 and C != 1) else (1, self.dim(dims[0]))
                else:
                    r, c = self.dim(dims[0]), self.dim(dims[1])
            else:
                r, c = R, C
            if b == "setIdentity":
                m = eye(r, c, self.loc)
            elif b == "setRandom":
                self.event("random", "Eigen Random")
                m = Mat(r, c, [P.fresh("rand", "random") for _ in range(r * c)])
            else:
                m = fill(r, c, val, self.loc)
            if lv:
                self.store(obj, m)
            return obj
        if b in ("resize", "conservativeResize"):
            kinds = [self.ty(p).get("n", "") for p in fn.get("p", [])]
            dims = [(R, C)[i] if i < len(kinds) and kinds[i].endswith("NoChange_t") else self.dim(x) for i, x in enumerate(vs)]
            if len(dims) == 1:
                r, c = (dims[0], 1) if not (R == 1 and C != 1) else (1, dims[0])
            else:
                r, c = dims
            if b == "resize" and (r, c) == (R, C):
                return VOID
            m = Mat(r, c, [v.d[i * C + j] if b == "conservativeResize" and i < R and j < C else self.uninit()
                           for i in range(r) for j in range(c)],
                    [v.l[i * C + j] if b == "conservativeResize" and i < R and j < C else None for i in range(r) for j in range(c)])
            if lv:
                self.store(obj, m)
            return VOID
        if b == "dot":
            w = vs[0]
            if isinstance(w, Mat):
                if len(w.d) != len(v.d):
                    self.event("dim", "dot product of sizes %d and %d" % (len(v.d), len(w.d)))
                    return Top("dot size")
                return dot(v, w)
            return Top("dot")
        if b == "cross":
            w = vs[0]
            if isinstance(w, Mat) and len(w.d) == 3 and len(v.d) == 3:
                a, c = [sc(x) for x in v.d], [sc(x) for x in w.d]
                return Mat(v.r, v.c, [SUB(MUL(a[1], c[2]), MUL(a[2], c[1])), SUB(MUL(a[2], c[0]), MUL(a[0], c[2])), SUB(MUL(a[0], c[1]), MUL(a[1], c[0]))])
            return Top("cross")
        if b in ("norm", "stableNorm", "blueNorm"):
            return P.norm([sc(x) for x in v.d])
        if b == "squaredNorm":
            return dot(v, v)
        if b in ("normalized", "normalize", "stableNormalize", "stableNormalized"):
            nn = P.norm([sc(x) for x in v.d])
            # Eigen leaves a zero vector unchanged
            if isnum(nn) and nn == 0:
                m = v
            else:
                m = scl(v, P.inv(nn))
            if b.endswith("ed"):
                return m
            m = Mat(m.r, m.c, m.d, [self.loc] * len(m.d))
            if lv:
                self.store(obj, m)
            return VOID
        if b == "sum":
            acc = 0
            for x in v.d:
                acc = ADD(acc, sc(x))
            return acc
        if b == "mean":
            acc = 0
            for x in v.d:
                acc = ADD(acc, sc(x))
            return DIV(acc, float(len(v.d)))
        if b == "prod":
            acc = 1
            for x in v.d:
                acc = MUL(acc, sc(x))
            return acc
        if b == "trace":
            acc = 0
            for i in range(min(R, C)):
                acc = ADD(acc, sc(v.d[i * C + i]))
            return acc
        if b in ("minCoeff", "maxCoeff"):
            if not v.d:
                self.event("oob", "%s of an empty matrix" % b)
                return Top("extremum of nothing")
            if vs:
                best = 0
                order = [i * v.c + j for j in range(v.c) for i in range(v.r)]
                for q in order[1:]:
                    d, rest = self.decide(self.cmp("<" if b[:3] == "min" else ">", sc(v.d[q]), sc(v.d[order[best]])))
                    if d is None:
                        return self.unknown("position of the extremum of symbolic values", args)
                    if d:
                        best = order.index(q)
                q = order[best]
                at = [q // v.c, q % v.c] if len(vs) == 2 else [q]
                for p, k in zip(vs, at):
                    if isinstance(p, Ptr) and p.ref is not None:
                        self.store(p.ref, k)
                return sc(v.d[q])
            f = P.minv if b[:3] == "min" else P.maxv
            acc = sc(v.d[0])
            for x in v.d[1:]:
                acc = f(acc, sc(x))
            return acc
        if b in ("cwiseProduct",):
            return Mat(R, C, [MUL(sc(x), sc(y)) for x, y in zip(v.d, vs[0].d)])
        if b in ("cwiseQuotient",):
            return Mat(R, C, [DIV(sc(x), sc(y)) for x, y in zip(v.d, vs[0].d)])
        if b in ("cwiseAbs", "abs"):
            return Mat(R, C, [P.absv(sc(x)) for x in v.d])
        if b in ("cwiseSqrt", "sqrt"):
            return Mat(R, C, [SQRT(sc(x)) for x in v.d])
        if b in ("cwiseInverse",):
            return Mat(R, C, [INV(sc(x)) for x in v.d])
        if b in ("square", "cwiseAbs2", "abs2"):
            return Mat(R, C, [MUL(sc(x), sc(x)) for x in v.d])
        if b in ("cwiseMin", "cwiseMax", "min", "max"):
            f = P.minv if "in" in b else P.maxv
            w = vs[0]
            return Mat(R, C, [f(sc(x), sc(w.d[i] if isinstance(w, Mat) else w)) for i, x in enumerate(v.d)])
        if b == "pow":
            return Mat(R, C, [self.powf(sc(x), vs[0]) for x in v.d])
        if b in ("isZero",):
            r = True
            prec = sc(vs[0]) if vs else 1e-12
            for x in v.d:
                x = sc(x)
                if isnum(x):
                    r = band(r, abs(x) <= prec)
                elif isinstance(x, Top):
                    return x
                elif isnum(prec) and prec <= 1e-9 and P.nonzero(x):
                    self.assumed["isZero"] = self.assumed.get("isZero", 0) + 1
                    return False        # durations and steps are of ordinary magnitude
                else:
                    r = band(r, bnot(gt0(SUB(P.absv(x), prec))))
            return r
        if b in ("isApprox",):
            w = vs[0]
            r = True
            prec = vs[1] if len(vs) > 1 else 1e-12
            if (v.r, v.c) != (w.r, w.c):
                self.event("dim", "isApprox of %dx%d and %dx%d" % (v.r, v.c, w.r, w.c))
                return Top("isApprox of different sizes")
            if isnum(prec) and all(isnum(x) for x in v.d + w.d):
                n2 = lambda l: sum(x * x for x in l)
                return n2([x - y for x, y in zip(v.d, w.d)]) <= prec * prec * min(n2(v.d), n2(w.d))
            for x, y in zip(v.d, w.d):
                r = band(r, eq0(SUB(sc(x), sc(y))))
            return r
        if b in ("any", "all"):
            r = b == "all"
            for x in v.d:
                r = band(r, self.boolv(x)) if b == "all" else bor(r, self.boolv(x))
            return r
        if b in ("allFinite",):
            return True
        if b in ("hasNaN",):
            return False
        if b == "count":
            acc = 0
            for x in v.d:
                acc = ADD(acc, self.b2n(self.boolv(x)))
            return acc
        if b == "swap":
            o = args[0]
            w = self.rv(o)
            if lv and isinstance(o, Ref):
                self.store(obj, w)
                self.store(o, v)
            return VOID
        if b in ("rowwise", "colwise"):
            return Wise(obj if lv else None, v, b[0])
        if b == "replicate":
            nr, nc = (self.dim(vs[0]), self.dim(vs[1])) if vs else (ti[0], ti[1])
            return Mat(R * nr, C * nc, [v.d[(i % R) * C + (j % C)] for i in range(R * nr) for j in range(C * nc)])
        if b == "cast":
            return v
        if b in ("unaryExpr",):
            return Mat(R, C, [self.rv(self.apply(vs[0], [x])) for x in v.d])
        if b in ("binaryExpr",):
            return Mat(R, C, [self.rv(self.apply(vs[1], [x, y])) for x, y in zip(v.d, vs[0].d)])
        if b in ("begin", "cbegin"):
            return It(self.lref(obj), 0)
        if b in ("end", "cend"):
            return It(self.lref(obj), len(v.d))
        if b == "data":
            t = self.ty(fn["cls"]) if "cls" in fn else None
            while t is not None and t.get("a") and "t" in (t["a"][0] or {}) and t.get("n", "").split("::")[-1] not in EIGEN_DENSE:
                t = self.ty(t["a"][0]["t"])
            return Ptr(self.lref(obj).sub(("i" if self.rowmajor(t) or 1 in (R, C) else "ic", 0)))
        if b in ("finished",):
            return v
        if b == "determinant":
            return self.det(v)
        if b == "select":
            out = []
            for i, c in enumerate(v.d):
                g = lambda x: x.d[i] if isinstance(x, Mat) else x
                out.append(self.ite(self.boolv(c), g(vs[0]), g(vs[1])))
            return Mat(R, C, out)
        if b in ("reverse",):
            return Mat(R, C, list(reversed(v.d)))
        if b == "coeffs":
            return obj
        if b == "inverse" and "Array" in fn["n"]:
            return Mat(R, C, [INV(sc(x)) for x in v.d])
        if b == "lpNorm":
            k = (self.targ_i(fn) or [None])[0]
            if k == 2:
                return P.norm([sc(x) for x in v.d])
            if k in (1, -1) and v.d:
                acc = P.absv(sc(v.d[0]))
                for x in v.d[1:]:
                    acc = ADD(acc, P.absv(sc(x))) if k == 1 else P.maxv(acc, P.absv(sc(x)))
                return acc
            return self.unknown("lpNorm", args)
        if b == "inverse" and R == C and 0 < R <= 4:
            dt = self.det(v)
            if R == 1:
                return Mat(1, 1, [INV(dt)])
            out = []
            for i in range(R):
                for j in range(R):
                    minor = Mat(R - 1, R - 1, [v.d[a * R + q] for a in range(R) if a != j for q in range(R) if q != i])
                    out.append(DIV(MUL(self.det(minor), (-1) ** (i + j)), dt))
            return Mat(R, R, out)
        if b == "value":
            return v.d[0]
        h = self.hooks.get("@eigen")
        if h is not None:
            r = h(self, e, fn, b, obj, v, vs)
            if r is not NotImplemented:
                return r
        return self.unknown("Eigen method %s" % b, args)

    def det(self, v):
        n = v.r
        if n == 1:
            return v.d[0]
        acc = 0
        for j in range(n):
            minor = Mat(n - 1, n - 1, [v.d[i * n + k] for i in range(1, n) for k in range(n) if k != j])
            acc = ADD(acc, MUL(MUL(v.d[j], (-1) ** j), self.det(minor)))
        return acc

    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if isinstance(c, Top):
            return c
        at = first_atom(c)
        return gval(at, self.ite(brestrict(c, at, True), a, b), self.ite(brestrict(c, at, False), a, b))

    def lift_method(self, e, fn, b, obj, v, args):
        """method of a gated value: analyse both alternatives"""
        out = self.new(VOID)

        def run(val):
            def f():
                if isinstance(obj, Ref):
                    self.store(obj, val)
                    o = obj
                else:
                    o = val
                r = self.eig_method(e, fn, b, o, args) if (fn["n"].startswith("Eigen") ) else self.std_method(e, fn, "", b, o, args)
                self.mem[out.cell] = self.rv(r) if not isinstance(r, Ref) else self.load(r)
                return True
            return f
        mutating = b in ("setZero", "setOnes", "resize", "conservativeResize", "swap", "fill", "normalize", "push_back", "emplace_back", "clear", "insert", "pop_back")
        if not mutating and isinstance(obj, Ref) and b in ("block", "segment", "head", "tail", "row", "col", "transpose", "array", "topRows", "leftCols", "bottomRows", "rightCols"):
            a = self.eig_method(e, fn, b, obj, args) if False else None
        self.branch(B("a", v.c), run(v.a), run(v.b))
        return self.load(out)

    def wise_method(self, w, b, vs):
        m = w.val
        rows = w.ax == "r"
        slices = ([m.d[i * m.c:(i + 1) * m.c] for i in range(m.r)] if rows else [[m.d[i * m.c + j] for i in range(m.r)] for j in range(m.c)])

        def pack(xs):
            return Mat(len(xs), 1, xs) if rows else Mat(1, len(xs), xs)
        if b in ("norm",):
            return pack([P.norm([sc(x) for x in s]) for s in slices])
        if b == "squaredNorm":
            return pack([dot(Mat(len(s), 1, s), Mat(len(s), 1, s)) for s in slices])
        if b == "sum":
            out = []
            for s in slices:
                acc = 0
                for x in s:
                    acc = ADD(acc, sc(x))
                out.append(acc)
            return pack(out)
        if b == "mean":
            out = []
            for s in slices:
                acc = 0
                for x in s:
                    acc = ADD(acc, sc(x))
                out.append(DIV(acc, float(len(s))))
            return pack(out)
        if b in ("minCoeff", "maxCoeff"):
            f = P.minv if b[:3] == "min" else P.maxv
            out = []
            for s in slices:
                acc = sc(s[0])
                for x in s[1:]:
                    acc = f(acc, sc(x))
                out.append(acc)
            return pack(out)
        if b in ("normalize", "normalized"):
            out = []
            for s in slices:
                n = P.norm([sc(x) for x in s])
                if isnum(n) and n == 0:
                    out.append(list(s))
                else:
                    i = P.inv(n)
                    out.append([MUL(sc(x), i) for x in s])
            if rows:
                d = [x for s in out for x in s]
            else:
                d = [out[j][i] for i in range(m.r) for j in range(m.c)]
            r = Mat(m.r, m.c, d, [self.loc] * len(d))
            if b == "normalized":
                return r
            if w.ref is not None:
                self.store(w.ref, r)
            return VOID
        if b == "prod":
            out = []
            for s in slices:
                acc = 1
                for x in s:
                    acc = MUL(acc, sc(x))
                out.append(acc)
            return pack(out)
        if b == "cross" and isinstance(vs[0], Mat) and len(vs[0].d) == 3 and all(len(s) == 3 for s in slices):
            c = [sc(x) for x in vs[0].d]
            out = []
            for s in slices:
                a = [sc(x) for x in s]
                out.append([SUB(MUL(a[1], c[2]), MUL(a[2], c[1])), SUB(MUL(a[2], c[0]), MUL(a[0], c[2])), SUB(MUL(a[0], c[1]), MUL(a[1], c[0]))])
            d = [x for s in out for x in s] if rows else [out[j][i] for i in range(m.r) for j in range(m.c)]
            return Mat(m.r, m.c, d)
        if b == "replicate":
            k = self.dim(vs[0])
            if rows:
                return Mat(m.r, m.c * k, [m.d[i * m.c + j % m.c] for i in range(m.r) for j in range(m.c * k)])
            return Mat(m.r * k, m.c, [m.d[(i % m.r) * m.c + j] for i in range(m.r * k) for j in range(m.c)])
        if b == "count":
            out = []
            for s in slices:
                acc = 0
                for x in s:
                    acc = ADD(acc, self.b2n(self.boolv(x)))
                out.append(acc)
            return pack(out)
        if b == "reverse":
            out = [list(reversed(s)) for s in slices]
            d = [x for s in out for x in s] if rows else [out[j][i] for i in range(m.r) for j in range(m.c)]
            return Mat(m.r, m.c, d)
        if b in ("any", "all"):
            out = []
            for s in slices:
                r = b == "all"
                for x in s:
                    r = band(r, self.boolv(x)) if b == "all" else bor(r, self.boolv(x))
                out.append(r)
            return pack(out)
        return self.unknown("Eigen partial reduction %s" % b, [])

    def wise_val(self, w, op, x):
        m = w.val
        f = {"+": ADD, "-": SUB, "*": MUL, "/": DIV}[op]
        rows = w.ax == "r"
        d = [f(sc(m.d[i * m.c + j]), sc(x.d[j if rows else i])) for i in range(m.r) for j in range(m.c)]
        return Mat(m.r, m.c, d, [self.loc] * len(d))

    def wise_op(self, w, op, x):
        r = self.wise_val(w, op, x)
        if w.ref is not None:
            self.store(w.ref, r)
        return w

    def powf(self, x, k):
        if isinstance(k, float) and k == int(k):
            k = int(k)
        if isinstance(x, Top):
            return x
        if isinstance(k, int):
            if isnum(x):
                if k < 0:
                    P.divisor(x)
                return x ** k if not (x == 0 and k < 0) else float("inf")
            if k >= 0:
                return P.powi(x, k)
            return INV(P.powi(x, -k))
        if k == 0.5:
            return SQRT(x)
        return P.func("pow", x, k)

    # -------------------------------------------------------- std
    def std_push(self, ref, x):
        v = self.load(ref)

        def f(c):
            if isinstance(c, Vec):
                return Vec(c.v + (x,))
            return Top("push_back on %s" % type(c).__name__)
        self.store(ref, self.lift1(v, f))

    def std_method(self, e, fn, cn, b, obj, args):
        v = self.rv(obj)
        if isinstance(v, Gam):
            v = self.pick(v)
        if b in ("push_back", "emplace_back"):
            ref = self.lref(obj)
            if b == "emplace_back" and len(args) != 1:
                et = None
                t = self.ty(fn["cls"])
                if t.get("a"):
                    et = self.ty(t["a"][0]["t"])
                if not args and et is not None:
                    x = self.default(et, self.frames[-1].tu, True)
                elif et is not None:
                    x = self.build(et, args, self.frames[-1].tu)
                else:
                    x = Top("emplace_back")
            else:
                x = self.rv(args[0])
                t = self.ty(fn["cls"])
                if t.get("a") and t["a"][0] and "t" in t["a"][0]:
                    et = self.ty(t["a"][0]["t"])
                    if fn.get("p") and self.ty(fn["p"][0])["k"] == "rref":
                        self.move_from(args[0], et, self.frames[-1].tu)
                    if b == "emplace_back" and et["k"] == "rec" and not (isinstance(x, Obj) and x.t == et.get("n")) and not isinstance(x, (Gam, Top)):
                        x = self.build(et, args, self.frames[-1].tu)
                    x = self.convert(x, et, self.frames[-1].tu)
            self.std_push(ref, x)
            r = self.load(ref)
            return ref.sub(("i", len(r.v) - 1)) if isinstance(r, Vec) else VOID
        if isinstance(v, Gam):
            if b == "size":
                return self.lift1(v, lambda x: self.csize(x))
            if b == "empty":
                return bite(v.c, self.csize(v.a) == 0 if not isinstance(v.a, Gam) else Top("empty"), self.csize(v.b) == 0 if not isinstance(v.b, Gam) else Top("empty"))
            return self.lift_method(e, fn, b, obj, v, args)
        if isinstance(v, Top):
            return v
        vs = None
        ref = obj if isinstance(obj, Ref) else None
        if isinstance(v, Obj) and v.t == "std::optional":
            if b in ("has_value", "operator bool"):
                return "v" in v.f
            if b == "value":
                if "v" not in v.f:
                    raise AbsThrow("std::bad_optional_access", "value of an empty optional", self.here())
                return ref.sub(("f", "v")) if ref is not None else v.f["v"]
            if b == "value_or":
                return v.f["v"] if "v" in v.f else self.rv(args[0])
            if b in ("reset", "emplace") and ref is not None:
                t = self.ty(fn["cls"])
                et = self.ty(t["a"][0]["t"]) if t.get("a") and "t" in t["a"][0] else None
                if b == "emplace" and et is None:
                    return self.unknown("std::optional::emplace", args)
                x = None if b == "reset" else self.rv(args[0]) if len(args) == 1 and et["k"] != "rec" else self.build(et, args, self.frames[-1].tu)
                self.store(ref, Obj("std::optional", {} if b == "reset" else {"v": self.convert(x, et, self.frames[-1].tu)}))
                return VOID if b == "reset" else ref.sub(("f", "v"))
        if isinstance(v, Vec) and cn in ("std::set", "std::unordered_set", "std::multiset"):
            r = self.set_method(cn, b, ref if ref is not None else self.new(v), v, [self.rv(a) for a in args])
            if r is not NotImplemented:
                return r
        if isinstance(v, Vec) and cn in ("std::stack", "std::queue") and b in ("top", "pop", "push", "emplace", "front") and ref is not None:
            if b in ("push", "emplace"):
                t = self.ty(fn["cls"])
                et = self.ty(t["a"][0]["t"])
                x = self.rv(args[0]) if b == "push" or len(args) == 1 and et["k"] != "rec" else self.build(et, args, self.frames[-1].tu)
                self.std_push(ref, self.convert(x, et, self.frames[-1].tu))
                return VOID
            if not v.v:
                self.event("oob", "%s() of an empty container" % b)
                return self.new(Top("empty container"))
            if b == "pop":
                self.store(ref, Vec(v.v[:-1] if cn == "std::stack" else v.v[1:]))
                return VOID
            return ref.sub(("i", len(v.v) - 1 if b == "top" else 0))
        if isinstance(v, (Vec, Arr)):
            n = self.csize(v)
            if b == "size" or b == "max_size" or b == "length":
                return n
            if b == "empty":
                return n == 0
            if b == "capacity":
                return n
            if ref is None:
                ref = self.new(v)
            if b in ("begin", "cbegin"):
                return It(ref, 0)
            if b in ("end", "cend"):
                return It(ref, n)
            if b in ("rbegin", "crbegin"):
                return It(ref, n, "rev")
            if b in ("rend", "crend"):
                return It(ref, 0, "rev")
            if b in ("front", "back"):
                if n == 0:
                    self.event("oob", "%s() of an empty container" % b)
                    return self.new(Top("empty container"))
                return ref.sub(("i", 0 if b == "front" else n - 1))
            vs = [self.rv(a) for a in args]
            if b in ("at", "operator[]"):
                i = self.dim(vs[0])
                if not 0 <= i < n:
                    if b == "at":
                        raise AbsThrow("std::out_of_range", "at", self.here())
                    self.event("oob", "index %d outside container of size %d" % (i, n))
                return ref.sub(("i", i))
            if b in ("reserve", "shrink_to_fit"):
                return VOID
            if b == "resize":
                k = self.dim(vs[0])
                t = self.ty(fn["cls"])
                et = self.ty(t["a"][0]["t"])
                items = list(v.v[:k])
                while len(items) < k:
                    items.append(vs[1] if len(vs) > 1 else self.default(et, self.frames[-1].tu, True))
                self.store(ref, Vec(items))
                return VOID
            if b == "clear":
                self.store(ref, Vec(()))
                return VOID
            if b == "pop_back":
                if n == 0:
                    self.event("oob", "pop_back of an empty container")
                self.store(ref, Vec(v.v[:-1]))
                return VOID
            if b in ("push_front", "emplace_front"):
                t = self.ty(fn["cls"])
                et = self.ty(t["a"][0]["t"])
                x = vs[0] if b == "push_front" or len(vs) == 1 and et["k"] != "rec" else self.build(et, args, self.frames[-1].tu)
                self.store(ref, Vec((self.convert(x, et, self.frames[-1].tu),) + v.v))
                return ref.sub(("i", 0))
            if b == "pop_front":
                if n == 0:
                    self.event("oob", "pop_front of an empty container")
                self.store(ref, Vec(v.v[1:]))
                return VOID
            if b == "emplace":
                t = self.ty(fn["cls"])
                et = self.ty(t["a"][0]["t"])
                x = self.convert(vs[1], et, self.frames[-1].tu) if len(vs) == 2 and et["k"] != "rec" else self.build(et, args[1:], self.frames[-1].tu)
                self.store(ref, Vec(v.v[:vs[0].i] + (x,) + v.v[vs[0].i:]))
                return It(ref, vs[0].i)
            if b in ("reverse", "unique", "sort", "remove", "remove_if") and cn == "std::list":
                a, z = It(ref, 0), It(ref, n)
                r = self.algorithm(b, [a, z] + vs, [a, z] + list(args))
                if isinstance(r, It):
                    self.store(ref, Vec(self.load(ref).v[:r.i]))
                return VOID
            if b == "insert":
                pos = vs[0].i
                if isinstance(vs[1], It):
                    items = tuple(self.range_vals(vs[1], vs[2]))
                elif len(vs) == 3 and isinstance(vs[1], Ptr):
                    items = tuple(self.range_vals(vs[1], vs[2]))
                elif len(vs) == 2 and isinstance(vs[1], Vec) and self.ty(fn["p"][1] if len(fn.get("p", [])) > 1 else -1).get("n") == "std::initializer_list":
                    items = vs[1].v
                elif len(vs) == 3:
                    items = (vs[2],) * self.dim(vs[1])
                else:
                    items = (vs[1],)
                self.store(ref, Vec(v.v[:pos] + items + v.v[pos:]))
                return It(ref, pos)
            if b == "erase":
                i = vs[0].i
                j = vs[1].i if len(vs) > 1 else i + 1
                self.store(ref, Vec(v.v[:i] + v.v[j:]))
                return It(ref, i)
            if b == "assign":
                if isinstance(vs[0], It):
                    self.store(ref, Vec(self.range_vals(vs[0], vs[1])))
                elif isinstance(vs[0], Vec):
                    self.store(ref, vs[0])
                else:
                    self.store(ref, Vec([vs[1]] * self.dim(vs[0])))
                return VOID
            if b == "data":
                return Ptr(ref.sub(("i", 0)))
            if b == "swap":
                o = args[0]
                w = self.rv(o)
                self.store(ref, w)
                self.store(o, v)
                return VOID
            if b == "fill":
                self.store(ref, Vec([vs[0]] * n))
                return VOID
        if isinstance(v, MapV):
            if ref is None:
                ref = self.new(v)
            vs = [self.rv(a) for a in args]
            n = len(v.d)
            if b in ("begin", "cbegin"):
                return It(ref, 0, "map")
            if b in ("end", "cend"):
                return It(ref, n, "map")
            if b in ("rbegin", "crbegin"):
                return It(ref, n, "rmap")
            if b in ("rend", "crend"):
                return It(ref, 0, "rmap")
            if b == "size":
                return n
            if b == "empty":
                return n == 0
            if b in ("find", "count", "at", "contains"):
                k = vs[0]
                if isinstance(k, Top):
                    return k
                if b in ("count", "contains"):
                    return int(k in v.d) if b == "count" else k in v.d
                if b == "at":
                    if k not in v.d:
                        raise AbsThrow("std::out_of_range", "map::at", self.here())
                    return ref.sub(("k", k))
                return It(ref, v.keys().index(k) if k in v.d else n, "map")
            if b in ("insert", "emplace", "try_emplace", "insert_or_assign", "emplace_hint"):
                d = dict(v.d)
                if len(vs) == 2 and isinstance(vs[0], It) and isinstance(vs[1], It):
                    for p in self.range_vals(vs[0], vs[1]):
                        d.setdefault(p.f["first"], p.f["second"])
                    self.store(ref, MapV(d))
                    return VOID
                if len(vs) == 1 and isinstance(vs[0], Vec):
                    for p in vs[0].v:
                        d.setdefault(p.f["first"], p.f["second"])
                    self.store(ref, MapV(d))
                    return VOID
                a = vs[1:] if vs and isinstance(vs[0], It) else vs
                if len(a) == 1 and isinstance(a[0], Obj) and "first" in a[0].f:
                    k, x = a[0].f["first"], a[0].f["second"]
                elif len(a) == 2:
                    k, x = a
                else:
                    return self.unknown("%s of a map" % b, args)
                t = self.ty(fn["cls"])
                if len(t.get("a", [])) > 1 and "t" in t["a"][1]:
                    x = self.convert(x, self.ty(t["a"][1]["t"]), self.frames[-1].tu)
                new = k not in d
                if new or b == "insert_or_assign":
                    d[k] = x
                m = MapV(d)
                self.store(ref, m)
                it = It(ref, m.keys().index(k), "map")
                return it if vs and isinstance(vs[0], It) else Obj("std::pair", {"first": it, "second": new})
            if b == "erase":
                d = dict(v.d)
                if isinstance(vs[0], It):
                    ks = v.keys()
                    for k in ks[vs[0].i:vs[1].i if len(vs) > 1 else vs[0].i + 1]:
                        del d[k]
                    self.store(ref, MapV(d))
                    return It(ref, vs[0].i, "map")
                n = int(vs[0] in d)
                d.pop(vs[0], None)
                self.store(ref, MapV(d))
                return n
            if b in ("lower_bound", "upper_bound") and all(P.isnum(k) for k in list(v.d) + [vs[0]]):
                return It(ref, sum(1 for k in v.d if k < vs[0] or b == "upper_bound" and k == vs[0]), "map")
            if b == "clear":
                self.store(ref, MapV({}))
                return VOID
        if isinstance(v, It):
            if b == "base":
                return It(v.ref, v.i)
        if isinstance(v, Ptr):
            if b == "get" or b == "lock":
                return v
            if b == "expired":
                return v.ref is None
            if b == "operator bool":
                return v.ref is not None
            if b == "operator[]":
                return self.ptradd(v, self.dim(self.rv(args[0]))).ref
            if b in ("reset",):
                if ref is not None:
                    self.store(ref, self.rv(args[0]) if args else NULL)
                return VOID
            if b == "release":
                if ref is not None:
                    self.store(ref, NULL)
                self.deleters.pop(v.ref, None)
                return v
        if isinstance(v, (Clo, FnV, Bound, MPtr)) and b == "operator()":
            return self.apply(v, args)
        if isinstance(v, Obj) and v.t == "std::pair" and b == "swap":
            o = args[0]
            w = self.rv(o)
            self.store(ref, w)
            self.store(o, v)
            return VOID
        if isinstance(v, (Str, str)):
            if b == "substr":
                ks = [self.dim(self.rv(a)) for a in args]
                return Str(v[ks[0]:ks[0] + ks[1]] if len(ks) > 1 else v[ks[0]:] if ks else v)
            if b == "append" and isinstance(obj, Ref) and len(args) == 1 and isinstance(self.rv(args[0]), str):
                self.store(obj, Str(v + self.rv(args[0])))
                return obj
            if b in ("find", "rfind") and len(args) == 1 and isinstance(self.rv(args[0]), str):
                k = getattr(str(v), b)(self.rv(args[0]))
                return k if k >= 0 else 2 ** 64 - 1
            if b == "compare" and len(args) == 1 and isinstance(self.rv(args[0]), str):
                w = self.rv(args[0])
                return (v > w) - (v < w)
            if b in ("operator[]", "at", "front", "back"):
                k = self.dim(self.rv(args[0])) if args else 0 if b == "front" else len(v) - 1
                return ord(v[k]) if 0 <= k < len(v) else 0
            if b == "clear" and isinstance(obj, Ref):
                self.store(obj, Str(""))
                return VOID
            if b in ("c_str", "str", "data", "append"):
                return Str(v)
            if b in ("size", "length"):
                return len(v)
            if b == "empty":
                return len(v) == 0
            return Str("")
        if "stream" in cn or "ios" in cn or (isinstance(v, Obj) and "stream" in v.t):
            if b == "str":
                return Str("")
            return obj if obj is not None else VOID
        if isinstance(v, Obj) and b == "what":
            return Str(v.f.get("what", ""))
        if cn == "std::numeric_limits":
            return self.numlim(fn, b)
        if isinstance(v, Obj) and cn.startswith("ndcurves"):
            return self.curve_method(e, fn, fn["n"], b, obj, args)
        return self.unknown("%s on %s" % (fn["n"], type(v).__name__), args)

    def numlim(self, fn, b):
        t = self.ty(fn["cls"])
        a = self.ty(t["a"][0]["t"])
        if a["k"] == "float":
            return {"infinity": float("inf"), "max": 1.7976931348623157e308, "lowest": -1.7976931348623157e308,
                    "min": 2.2250738585072014e-308, "epsilon": getattr(self, "eps", 2.220446049250313e-16),
                    "quiet_NaN": float("nan"), "signaling_NaN": float("nan"), "denorm_min": 5e-324}.get(b, Top(b))
        w = a.get("w", 32)
        s = a["k"] == "int"
        return {"max": 2 ** (w - 1) - 1 if s else 2 ** w - 1, "min": -2 ** (w - 1) if s else 0, "lowest": -2 ** (w - 1) if s else 0}.get(b, Top(b))

    def std_func(self, e, fn, n, b, args):
        if "cls" in fn and self.ty(fn["cls"]).get("n") == "std::numeric_limits":
            return self.numlim(fn, b)
        if b in ("move", "forward", "as_const", "addressof") and n.startswith("std::") and len(args) == 1:
            return Ptr(self.lref(args[0])) if b == "addressof" else args[0]
        if b in ("ref", "cref"):
            return args[0]
        if b == "move" and len(args) == 3:
            b = "copy"
        if b == "swap":
            x, y = self.rv(args[0]), self.rv(args[1])
            self.store(args[0], y)
            self.store(args[1], x)
            return VOID
        if b == "get":
            v = self.rv(args[0])
            i = self.targ_i(fn)
            if i:
                i = i[0]
            else:
                # by type
                want = self.ty(fn["a"][0]["t"]).get("s") if fn.get("a") and "t" in (fn["a"][0] or {}) else None
                tt = self.ty(e["args"][0]["t"])
                while tt["k"] in ("ref", "rref"):
                    tt = self.ty(tt["e"])
                ix = [q for q, a in enumerate(tt.get("a", [])) if "t" in (a or {}) and self.ty(a["t"]).get("s") == want]
                if len(ix) != 1:
                    return self.unknown("std::get by type", args)
                i = ix[0]
            if isinstance(args[0], Ref) and isinstance(v, Obj):
                return args[0].sub(("f", list(v.f)[i]))
            if isinstance(v, Obj):
                return v.f[list(v.f)[i]]
            return args[0].sub(("i", i)) if isinstance(args[0], Ref) else Top("get")
        if b in ("ref", "cref", "mem_fn"):
            return args[0] if b != "mem_fn" else self.rv(args[0])
        if b == "bind":
            return Bound(self.rv(args[0]), [a if isinstance(a, Hold) or k.get("k") == "CallExpr" and k.get("fn", {}).get("n") in ("std::ref", "std::cref") else self.rv(a) for a, k in zip(args[1:], e["args"][1:])])
        if b == "invoke":
            return self.apply(self.rv(args[0]), args[1:])
        if b == "tie":
            return Obj("std::tie", {"_%d" % i: Ptr(a) if isinstance(a, Ref) else a for i, a in enumerate(args)})
        vs = [self.rv(a) for a in args]
        vs = [self.pick(v) if isinstance(v, Gam) else v for v in vs]
        if b == "make_pair":
            return Obj("std::pair", {"first": vs[0], "second": vs[1]})
        if b == "make_tuple":
            return Obj("std::tuple", {"_%d" % i: v for i, v in enumerate(vs)})
        if b == "exchange":
            if isinstance(args[0], Ref):
                x = vs[0]
                self.op_assign(args[0], vs[1], {})
                return x
            return self.unknown(n, args)
        if b == "make_optional":
            t = self.ty(e["t"])
            return self.build(t, args, self.frames[-1].tu) if t.get("n") == "std::optional" else Obj("std::optional", {"v": vs[0]})
        if b == "iter_swap":
            x, y = self.itref(vs[0]), self.itref(vs[1])
            a, c = self.load(x), self.load(y)
            self.store(x, c)
            self.store(y, a)
            return VOID
        if b in ("memcpy", "memmove", "memset"):
            return self.memop(b, e, vs, args)
        if b == "make_unique" and self.ty(e["t"]).get("a"):
            et = self.ty(self.ty(e["t"])["a"][0].get("t"))
            if et["k"] == "arr":
                k = self.dim(vs[0])
                el = self.ty(et["e"])
                return Ptr(self.new(Arr(k, {i: self.default(el, self.frames[-1].tu, True) for i in range(min(k, 4096))})).sub(("i", 0)))
        if b in ("make_shared", "make_unique"):
            return Ptr(self.new(vs[0] if len(vs) == 1 else Top("make_shared")))
        if b in ("min", "max", "fmin", "fmax", "clamp"):
            if b == "clamp":
                return P.minv(P.maxv(sc(vs[0]), sc(vs[1])), sc(vs[2]))
            if b in ("min", "max") and (len(vs) == 3 or len(vs) == 2 and isinstance(vs[0], Vec)):
                best = args[0] if len(vs) == 3 else vs[0].v[0]
                for x in [args[1]] if len(vs) == 3 else vs[0].v[1:]:
                    d, rest = self.decide(self.boolv(self.rv(self.apply(vs[-1], [x, best] if b == "min" else [best, x]))))
                    if d is None:
                        return self.unknown("std::%s with an undecided comparison" % b, args)
                    best = x if d else best
                return best
            f = P.minv if "min" in b else P.maxv
            if len(vs) >= 2 and is_scalar(vs[0]) and is_scalar(vs[1]):
                return f(sc(vs[0]), sc(vs[1]))
            if len(vs) == 1 and isinstance(vs[0], Vec):
                acc = sc(vs[0].v[0])
                for x in vs[0].v[1:]:
                    acc = f(acc, sc(x))
                return acc
            for v in vs:
                if isinstance(v, Top):
                    return v
            if isinstance(vs[0], Gam) or isinstance(vs[1], Gam):
                return self.lift2(vs[0], vs[1], lambda x, y: f(sc(x), sc(y)))
        if b in ("abs", "fabs", "labs", "fabsf"):
            return P.absv(sc(vs[0])) if not isinstance(vs[0], Mat) else Mat(vs[0].r, vs[0].c, [P.absv(sc(x)) for x in vs[0].d])
        if b == "fma":
            return ADD(MUL(sc(vs[0]), sc(vs[1])), sc(vs[2]))
        if b in ("gcd", "lcm") and all(isinstance(v, int) for v in vs):
            return getattr(math, b)(*vs)
        if b in ("copysign", "cbrt", "signbit", "log2", "log10", "exp2", "tan", "tanh", "fdim", "div") and all(isnum(v) for v in vs):
            x = [float(v) for v in vs]
            if b == "copysign":
                return math.copysign(*x)
            if b == "signbit":
                return math.copysign(1, x[0]) < 0
            if b == "fdim":
                return max(x[0] - x[1], 0.0)
            if b in ("log2", "log10", "exp2", "tan", "tanh"):
                return 2.0 ** x[0] if b == "exp2" else getattr(math, b)(x[0])
            if b == "cbrt":
                y = round(abs(x[0]) ** (1 / 3.0), 12)
                return math.copysign(y, x[0])
        if b == "minmax":
            xs = list(vs[0].v) if len(vs) == 1 and isinstance(vs[0], Vec) else vs[:2]
            if all(is_scalar(x) for x in xs):
                lo = hi = sc(xs[0])
                for x in xs[1:]:
                    lo, hi = P.minv(lo, sc(x)), P.maxv(hi, sc(x))
                return Obj("std::pair", {"first": lo, "second": hi})
        if b == "sqrt":
            return SQRT(sc(vs[0]))
        if b == "hypot":
            return P.norm([sc(v) for v in vs])
        if b == "pow":
            if isinstance(vs[0], Mat):
                return Mat(vs[0].r, vs[0].c, [self.powf(sc(x), sc(vs[1])) for x in vs[0].d])
            return self.powf(sc(vs[0]), sc(vs[1]))
        if b in ("floor", "ceil", "round", "trunc", "sin", "cos", "exp", "log", "fmod", "atan2", "acos", "lround", "rint", "nearbyint"):
            r = P.func("round" if b in ("lround", "rint", "nearbyint") else b, *[sc(v) for v in vs])
            if isinstance(r, int) and b in ("floor", "ceil", "round", "trunc"):
                r = float(r)
            return r
        if b in ("isnan", "isinf", "__builtin_isnan"):
            v = vs[0]
            if isnum(v):
                return math.isnan(v) if "nan" in b else math.isinf(v)
            return False
        if b in ("isfinite",):
            v = vs[0]
            return not (math.isnan(v) or math.isinf(v)) if isnum(v) else True
        if b in ("begin", "cbegin"):
            return It(self.lref(args[0]), 0, "map" if isinstance(vs[0], MapV) else "vec")
        if b in ("end", "cend"):
            return It(self.lref(args[0]), self.csize(vs[0]), "map" if isinstance(vs[0], MapV) else "vec")
        if b in ("rbegin",):
            return It(self.lref(args[0]), self.csize(vs[0]), "rev")
        if b in ("rend",):
            return It(self.lref(args[0]), 0, "rev")
        if b in ("next", "prev", "advance"):
            k = self.dim(vs[1]) if len(vs) > 1 else 1
            if b == "prev":
                k = -k
            r = self.itadv(vs[0], k)
            if b == "advance":
                self.store(args[0], r)
                return VOID
            return r
        if b == "distance":
            return len(self.it_refs(vs[0], vs[1]))
        if b == "size" and len(vs) == 1:
            return self.csize(vs[0])
        if b == "back_inserter":
            return Inserter(self.lref(args[0]))
        if b in ("endl", "flush", "setprecision", "setw"):
            return Obj("manip", {})
        if b == "uncaught_exception":
            return False
        if b in ("to_string",):
            return Str(str(vs[0]) if isinstance(vs[0], int) and not isinstance(vs[0], bool) else "")
        if b in ("accumulate", "inner_product", "for_each", "transform", "copy", "fill", "fill_n", "copy_n", "find_if", "find", "find_if_not", "any_of", "all_of", "none_of", "count_if", "min_element", "max_element", "iota", "reverse", "partial_sum", "swap_ranges", "equal", "count", "copy_backward", "lower_bound", "upper_bound", "generate", "is_sorted", "generate_n", "copy_if", "remove_copy_if", "remove_if", "remove", "adjacent_find", "adjacent_difference", "sort", "stable_sort", "rotate", "unique", "reduce", "transform_reduce", "replace", "replace_if", "partition", "stable_partition", "nth_element", "partial_sort", "minmax_element", "exclusive_scan", "inclusive_scan", "for_each_n", "mismatch", "reverse_copy", "unique_copy", "transform_inclusive_scan", "transform_exclusive_scan", "is_sorted_until", "lexicographical_compare"):
            return self.algorithm(b, vs, args)
        if b in ("abort", "exit", "terminate", "_Exit"):
            self.trace.append(("exit", b, self.here()))
            raise AbsThrow("exit", b, self.here())
        if b.startswith("operator"):
            return self.unknown(n, args)
        if b == "map_list_of":
            return Obj("list_of", {"list": Vec([Obj("std::pair", {"first": vs[0], "second": vs[1]})])})
        if b in ("ignore_unused",):
            return VOID
        d = self.hooks.get("@extern")
        if d is not None:
            r = d(self, e, fn, n, None, args)
            if r is not NotImplemented:
                return r
        return self.unknown(n, args)

    def memop(self, b, e, vs, args):
        """memcpy, memmove and memset to zero over whole numbers"""
        def width(x):
            while x.get("k", "").endswith("CastExpr") and "e" in x:
                x = x["e"]
                t = self.ty(x.get("t"))
                if t["k"] == "ptr":
                    et = self.ty(t["e"])
                    if et["k"] in ("int", "uint", "float", "enum"):
                        return et.get("w", 64 if et["k"] == "float" else 32) // 8
                if t["k"] == "arr":
                    et = self.ty(t["e"])
                    if et["k"] in ("int", "uint", "float", "enum"):
                        return et.get("w", 64 if et["k"] == "float" else 32) // 8
            return None
        w = width(e["args"][0])
        n = vs[2]
        if not w or not isinstance(n, int) or n % w or not isinstance(vs[0], Ptr) or vs[0].ref is None:
            return self.unknown(b, args)
        if b == "memset":
            if vs[1] != 0:
                return self.unknown(b, args)
            xs = [0] * (n // w)
        else:
            if not isinstance(vs[1], Ptr) or vs[1].ref is None or width(e["args"][1]) != w:
                return self.unknown(b, args)
            xs = [self.load(self.ptradd(vs[1], k).ref) for k in range(n // w)]
        for k, x in enumerate(xs):
            self.store(self.ptradd(vs[0], k).ref, x)
        return vs[0]

    def lift2(self, a, b, f):
        if isinstance(a, Gam):
            return gval(a.c, self.lift2(a.a, b, f), self.lift2(a.b, b, f))
        if isinstance(b, Gam):
            return gval(b.c, self.lift2(a, b.a, f), self.lift2(a, b.b, f))
        return f(a, b)

    def it_refs(self, a, b):
        if isinstance(a, Ptr):
            if a.ref is None and b.ref is None:
                return []
            i, j = a.ref.path[-1][1] if a.ref.path else 0, b.ref.path[-1][1]
            base = Ref(a.ref.cell, a.ref.path[:-1])
            w = b.ref.path[-1][0]
            return [base.sub((w if w in ("i", "ic") else "i", k)) for k in range(i, j)]
        v = self.load(a.ref)
        n = self.csize(v)
        if a.kind == "map":
            return [a.ref.sub(("mk", k)) for k in range(a.i, b.i)]
        if a.kind == "rmap":
            return [a.ref.sub(("mk", k - 1)) for k in range(a.i, b.i, -1)]
        if a.kind in ("rev", "rmap"):
            return [a.ref.sub(("i", k - 1)) for k in range(a.i, b.i, -1)]
        if b.i > n or a.i < 0 or b.i < a.i:
            self.event("oob", "iterator range [%d,%d) of a container of size %d" % (a.i, b.i, n))
            return [a.ref.sub(("i", k)) for k in range(max(a.i, 0), min(b.i, n))]
        return [a.ref.sub(("i", k)) for k in range(a.i, b.i)]

    def out_put(self, out, k, x):
        if isinstance(out, Inserter):
            self.std_push(out.ref, x)
        elif isinstance(out, It):
            self.store(self.itref(It(out.ref, out.i + k, out.kind)), x)
        elif isinstance(out, Ptr):
            self.store(self.ptradd(out, k).ref, x)
        else:
            raise Abort("output iterator %r" % out)

    def algorithm(self, b, vs, args):
        if b == "stable_sort":
            b = "sort"
        if b in ("fill_n",):
            for k in range(self.dim(vs[1])):
                self.out_put(vs[0], k, vs[2])
            return VOID
        if b == "copy_n":
            for k in range(self.dim(vs[1])):
                self.out_put(vs[2], k, self.load(self.itref(self.itadv(vs[0], k))))
            return VOID
        if b == "generate_n":
            for k in range(self.dim(vs[1])):
                self.out_put(vs[0], k, self.rv(self.apply(args[2], [])))
            return VOID
        if b == "for_each_n":
            k = self.dim(vs[1])
            for i in range(k):
                self.apply(vs[2], [self.itref(self.itadv(vs[0], i))])
            return self.itadv(vs[0], k)
        if b in ("rotate", "nth_element", "partial_sort"):
            # the middle comes second
            rs = self.it_refs(vs[0], vs[2])
            k = len(self.it_refs(vs[0], vs[1]))
            if b != "rotate":
                return self.algorithm("sort", [vs[0], vs[2]] + vs[3:], args)
            xs = [self.load(r) for r in rs]
            for r, x in zip(rs, xs[k:] + xs[:k]):
                self.store(r, x)
            return self.itadv(vs[0], len(rs) - k)
        rs = self.it_refs(vs[0], vs[1])
        if b == "unique" or b == "unique_copy":
            p = vs[2] if b == "unique" and len(vs) > 2 else vs[3] if b == "unique_copy" and len(vs) > 3 else None
            keep = []
            for r in rs:
                if keep:
                    c = self.cmp("==", self.load(keep[-1]), self.load(r)) if p is None else self.rv(self.apply(p, [keep[-1], r]))
                    d, rest = self.decide(self.boolv(c))
                    if d is None:
                        return self.unknown("std::%s with an undecided predicate" % b, args)
                    if d:
                        continue
                keep.append(r)
            xs = [self.load(r) for r in keep]
            for k, x in enumerate(xs):
                self.out_put(vs[0] if b == "unique" else vs[2], k, x)
            return self.itadv(vs[0], len(xs)) if b == "unique" else VOID
        if b == "reduce":
            f = vs[3] if len(vs) > 3 else None
            acc = vs[2] if len(vs) > 2 else 0
            for r in rs:
                acc = self.rv(self.apply(f, [acc, r])) if f is not None else self.vop("+", acc, self.load(r))
            return acc
        if b == "transform_reduce":
            two = isinstance(vs[2], (It, Ptr)) and len(vs) in (4, 6)
            acc = vs[3] if two else vs[2]
            red = vs[4] if two and len(vs) > 4 else vs[3] if not two else None
            tr = vs[5] if two and len(vs) > 5 else vs[4] if not two else None
            for k, r in enumerate(rs):
                if two:
                    o = self.itref(self.itadv(vs[2], k))
                    x = self.rv(self.apply(tr, [r, o])) if tr is not None else self.vop("*", self.load(r), self.load(o))
                else:
                    x = self.rv(self.apply(tr, [r]))
                acc = self.rv(self.apply(red, [acc, x])) if red is not None else self.vop("+", acc, x)
            return acc
        if b in ("replace", "replace_if"):
            for r in rs:
                d, rest = self.decide(self.boolv(self.cmp("==", self.load(r), vs[2]) if b == "replace" else self.rv(self.apply(vs[2], [r]))))
                if d is None:
                    return self.unknown("std::%s with an undecided predicate" % b, args)
                if d:
                    self.store(r, vs[3])
            return VOID
        if b in ("partition", "stable_partition"):
            yes, no = [], []
            for r in rs:
                d, rest = self.decide(self.boolv(self.rv(self.apply(vs[2], [r]))))
                if d is None:
                    return self.unknown("std::%s with an undecided predicate" % b, args)
                (yes if d else no).append(self.load(r))
            for r, x in zip(rs, yes + no):
                self.store(r, x)
            return self.itadv(vs[0], len(yes))
        if b == "minmax_element":
            lo = self.algorithm("min_element", vs, args)
            hi = self.algorithm("max_element", vs, args)
            return lo if isinstance(lo, Top) else hi if isinstance(hi, Top) else Obj("std::pair", {"first": lo, "second": hi})
        if b in ("exclusive_scan", "inclusive_scan", "transform_inclusive_scan", "transform_exclusive_scan"):
            rest = list(vs[3:])
            if b.endswith("exclusive_scan"):
                acc = rest.pop(0)
                op, tr = (rest + [None, None])[:2]
            elif b.startswith("transform"):
                op, tr = rest[0], rest[1]
                acc = rest[2] if len(rest) > 2 else None
            else:
                op = rest[0] if rest else None
                acc = rest[1] if len(rest) > 1 else None
                tr = None
            xs = [self.load(r) for r in rs]
            for k, x in enumerate(xs):
                if tr is not None:
                    x = self.rv(self.apply(tr, [x]))
                nxt = x if acc is None else self.rv(self.apply(op, [acc, x])) if op is not None else self.vop("+", acc, x)
                self.out_put(vs[2], k, acc if b.endswith("exclusive_scan") else nxt)
                acc = nxt
            return self.itadv(vs[2], len(xs)) if isinstance(vs[2], (It, Ptr)) else vs[2]
        if b == "reverse_copy":
            xs = [self.load(r) for r in rs]
            for k, x in enumerate(reversed(xs)):
                self.out_put(vs[2], k, x)
            return self.itadv(vs[2], len(xs)) if isinstance(vs[2], (It, Ptr)) else vs[2]
        if b == "mismatch":
            k = 0
            for r in rs:
                o = self.itref(self.itadv(vs[2], k))
                d, rest = self.decide(self.boolv(self.cmp("==", self.load(r), self.load(o))))
                if d is None or len(vs) > 3:
                    return self.unknown("std::mismatch", args)
                if not d:
                    break
                k += 1
            return Obj("std::pair", {"first": self.itadv(vs[0], k), "second": self.itadv(vs[2], k)})
        if b == "generate":
            for r in rs:
                self.store(r, self.rv(self.apply(args[2], [])))
            return VOID
        if b in ("equal", "swap_ranges"):
            if b == "equal" and len(vs) > 3 and isinstance(vs[3], (It, Ptr)):
                if len(self.it_refs(vs[2], vs[3])) != len(rs):
                    return False
                vs = vs[:3] + vs[4:]
            o = [self.itref(self.itadv(vs[2], k)) for k in range(len(rs))]
            if b == "equal":
                acc = True
                for r, q in zip(rs, o):
                    acc = band(acc, self.boolv(self.cmp("==", self.load(r), self.load(q)) if len(vs) < 4 else self.rv(self.apply(vs[3], [r, q]))))
                return acc
            for r, q in zip(rs, o):
                x, y = self.load(r), self.load(q)
                self.store(r, y)
                self.store(q, x)
            return self.itadv(vs[2], len(rs))
        if b in ("copy_if", "remove_copy_if"):
            k = 0
            for r in rs:
                d, rest = self.decide(self.boolv(self.rv(self.apply(vs[3], [r]))))
                if d is None:
                    return self.unknown("std::%s with an undecided predicate" % b, args)
                if d == (b == "copy_if"):
                    self.out_put(vs[2], k, self.load(r))
                    k += 1
            return self.itadv(vs[2], k) if isinstance(vs[2], (It, Ptr)) else vs[2]
        if b in ("remove_if", "remove"):
            keep = []
            for r in rs:
                d, rest = self.decide(self.boolv(self.rv(self.apply(vs[2], [r])) if b == "remove_if" else self.cmp("==", self.load(r), vs[2])))
                if d is None:
                    return self.unknown("std::%s with an undecided predicate" % b, args)
                if not d:
                    keep.append(self.load(r))
            for r, x in zip(rs, keep):
                self.store(r, x)
            return self.itadv(vs[0], len(keep))
        if b == "copy_backward":
            xs = [self.load(r) for r in rs]
            for k, x in enumerate(reversed(xs)):
                self.store(self.itref(self.itadv(vs[2], -1 - k)), x)
            return self.itadv(vs[2], -len(xs))
        if b == "adjacent_find":
            for k in range(len(rs) - 1):
                c = self.cmp("==", self.load(rs[k]), self.load(rs[k + 1])) if len(vs) < 3 else self.rv(self.apply(vs[2], [rs[k], rs[k + 1]]))
                d, rest = self.decide(self.boolv(c))
                if d is None:
                    return self.unknown("adjacent_find with an undecided predicate", args)
                if d:
                    return self.itadv(vs[0], k)
            return vs[1]
        if b in ("lower_bound", "upper_bound"):
            for k, r in enumerate(rs):
                x = self.load(r)
                if len(vs) > 3:
                    c = self.rv(self.apply(vs[3], [r, vs[2]] if b == "lower_bound" else [vs[2], r]))
                else:
                    c = self.cmp("<", x, vs[2]) if b == "lower_bound" else self.cmp("<", vs[2], x)
                d, rest = self.decide(self.boolv(c))
                if d is None:
                    return self.unknown("std::%s in a symbolic range" % b, args)
                if d != (b == "lower_bound"):
                    return self.itadv(vs[0], k)
            return vs[1]
        if b == "adjacent_difference":
            prev = None
            for k, r in enumerate(rs):
                x = self.load(r)
                self.out_put(vs[2], k, x if prev is None else self.rv(self.apply(vs[3], [x, prev])) if len(vs) > 3 else self.vop("-", x, prev))
                prev = x
            return VOID
        if b == "sort":
            xs = [self.load(r) for r in rs]
            for i in range(1, len(xs)):
                j = i
                while j > 0:
                    c = self.cmp("<", xs[j], xs[j - 1]) if len(vs) < 3 else self.rv(self.apply(vs[2], [xs[j], xs[j - 1]]))
                    d, rest = self.decide(self.boolv(c))
                    if d is None:
                        return self.unknown("std::sort of a symbolic range", args)
                    if not d:
                        break
                    xs[j], xs[j - 1] = xs[j - 1], xs[j]
                    j -= 1
            for r, x in zip(rs, xs):
                self.store(r, x)
            return VOID
        if b == "accumulate":
            acc = vs[2]
            for r in rs:
                if len(vs) > 3:
                    acc = self.rv(self.apply(vs[3], [acc, r]))
                else:
                    acc = self.vop("+", acc, self.load(r))
            return acc
        if b == "inner_product":
            acc = vs[3]
            for k, r in enumerate(rs):
                o = self.load(self.itref(self.itadv(vs[2], k)))
                m = self.rv(self.apply(vs[5], [self.load(r), o])) if len(vs) > 5 else self.vop("*", self.load(r), o)
                acc = self.rv(self.apply(vs[4], [acc, m])) if len(vs) > 4 else self.vop("+", acc, m)
            return acc
        if b == "for_each":
            for r in rs:
                self.apply(vs[2], [r])
            return vs[2]
        if b == "transform":
            if len(vs) == 4:
                for k, r in enumerate(rs):
                    self.out_put(vs[2], k, self.rv(self.apply(vs[3], [r])))
            else:
                for k, r in enumerate(rs):
                    o = self.itref(self.itadv(vs[2], k))
                    self.out_put(vs[3], k, self.rv(self.apply(vs[4], [r, o])))
            return VOID
        if b == "copy":
            xs = [self.load(r) for r in rs]
            for k, x in enumerate(xs):
                self.out_put(vs[2], k, x)
            return self.itadv(vs[2], len(xs)) if isinstance(vs[2], (It, Ptr)) else vs[2]
        if b == "fill":
            for r in rs:
                self.store(r, vs[2])
            return VOID
        if b == "iota":
            for k, r in enumerate(rs):
                self.store(r, P.add(vs[2], k))
            return VOID
        if b == "reverse":
            xs = [self.load(r) for r in rs]
            for r, x in zip(rs, reversed(xs)):
                self.store(r, x)
            return VOID
        if b == "partial_sum":
            acc = None
            for k, r in enumerate(rs):
                x = self.load(r)
                acc = x if acc is None else self.rv(self.apply(vs[3], [acc, x])) if len(vs) > 3 else self.vop("+", acc, x)
                self.out_put(vs[2], k, acc)
            return VOID
        if b == "is_sorted":
            acc = True
            for k in range(len(rs) - 1):
                c = self.cmp("<", self.load(rs[k + 1]), self.load(rs[k])) if len(vs) < 3 else self.rv(self.apply(vs[2], [rs[k + 1], rs[k]]))
                acc = band(acc, bnot(self.boolv(c)))
            return acc
        if b in ("any_of", "all_of", "none_of"):
            acc = b != "any_of"
            for r in rs:
                c = self.boolv(self.rv(self.apply(vs[2], [r])))
                if b == "any_of":
                    acc = bor(acc, c)
                elif b == "all_of":
                    acc = band(acc, c)
                else:
                    acc = band(acc, bnot(c))
            return acc
        if b in ("count_if", "count"):
            acc = 0
            for r in rs:
                c = self.boolv(self.rv(self.apply(vs[2], [r]))) if b == "count_if" else self.boolv(self.cmp("==", self.load(r), vs[2]))
                acc = P.add(acc, self.b2n(c))
            return acc
        if b in ("find_if", "find", "find_if_not"):
            for k, r in enumerate(rs):
                c = self.boolv(self.rv(self.apply(vs[2], [r]))) if b != "find" else self.boolv(self.cmp("==", self.load(r), vs[2]))
                if b == "find_if_not":
                    c = bnot(c)
                d, rest = self.decide(c)
                if d is None:
                    return self.unknown("find with undecided predicate", args)
                if d:
                    return self.itadv(vs[0], k)
            return vs[1]
        if b in ("min_element", "max_element"):
            best = 0
            for k in range(1, len(rs)):
                x, y = self.load(rs[k]), self.load(rs[best])
                if len(vs) > 2:
                    c = self.rv(self.apply(vs[2], [rs[k], rs[best]] if b[:3] == "min" else [rs[best], rs[k]]))
                else:
                    c = self.cmp("<" if b[:3] == "min" else ">", x, y)
                d, rest = self.decide(self.boolv(c))
                if d is None:
                    return self.unknown("extremum of symbolic range", args)
                if d:
                    best = k
            return self.itadv(vs[0], best)
        return self.unknown("std::" + b, args)

    # -------------------------------------------------------- ndcurves
    def curve_ctor(self, n, args):
        vs = [self.rv(a) for a in args]
        b = n.split("::")[-1]
        if b == "Bern":
            m, i = self.dim(vs[0]), self.dim(vs[1])
            return Obj("ndcurves::Bern", {"m": m, "i": i})
        if b == "bezier_curve":
            if not vs:
                return Obj("ndcurves::bezier_curve", {"wps": Vec(()), "T_min_": 0, "T_max_": 1, "degree_": 0, "dim_": 0, "size_": 0, "mult_T_": 1})
            if isinstance(vs[0], Obj):
                return vs[0]
            if isinstance(vs[0], It):
                pts = self.range_vals(vs[0], vs[1])
                rest = vs[2:]
            else:
                return self.unknown("bezier constructor", args)
            tmin = rest[0] if len(rest) > 0 else 0
            tmax = rest[1] if len(rest) > 1 else 1
            mult = rest[2] if len(rest) > 2 else 1
            return self.mkbez(pts, tmin, tmax, mult)
        if b in ("linear_variable", "curve_constraints"):
            return Obj(n, {})
        return self.unknown("ndcurves constructor %s" % n, args)

    def mkbez(self, pts, tmin, tmax, mult=1):
        dim = len(pts[0].d) if pts and isinstance(pts[0], Mat) else 0
        return Obj("ndcurves::bezier_curve", {"wps": Vec(pts), "T_min_": tmin, "T_max_": tmax, "degree_": len(pts) - 1, "dim_": dim, "size_": len(pts), "mult_T_": mult})

    def bez_derive(self, c, k):
        # as ndcurves does: the points are left unscaled, 1/T is folded in mult_T_
        for _ in range(k):
            pts = c.f["wps"].v
            T = SUB(c.f["T_max_"], c.f["T_min_"])
            n = len(pts) - 1
            if n == 0:
                new = [scl(pts[0], 0)]
            else:
                new = [scl(lin("-", pts[i + 1], pts[i]), n) for i in range(n)]
            c = self.mkbez(new, c.f["T_min_"], c.f["T_max_"], MUL(c.f["mult_T_"], INV(T)))
        return c

    def bez_point(self, c, t):
        pts = list(c.f["wps"].v)
        if not pts:
            return Top("evaluation of an empty curve")
        T = SUB(c.f["T_max_"], c.f["T_min_"])
        u = DIV(SUB(t, c.f["T_min_"]), T)
        n = len(pts) - 1
        v = SUB(1, u)
        acc = None
        for i, p in enumerate(pts):
            w = MUL(MUL(math.comb(n, i), P.powi(u, i)), P.powi(v, n - i))
            q = scl(p, w)
            acc = q if acc is None else lin("+", acc, q)
        return scl(acc, c.f["mult_T_"])

    def bez_extract(self, c, t1, t2):
        """control points of the restriction to [t1,t2] (blossoming)"""
        pts = list(c.f["wps"].v)
        T = SUB(c.f["T_max_"], c.f["T_min_"])
        a = DIV(SUB(t1, c.f["T_min_"]), T)
        b = DIV(SUB(t2, c.f["T_min_"]), T)
        n = len(pts) - 1
        out = []
        for i in range(n + 1):
            args = [b] * i + [a] * (n - i)
            cur = pts
            for u in args:
                v = SUB(1, u)
                cur = [lin("+", scl(cur[k], v), scl(cur[k + 1], u)) for k in range(len(cur) - 1)]
            out.append(cur[0])
        return self.mkbez(out, t1, t2, c.f["mult_T_"])

    def curve_eval(self, v, vs):
        if v.t == "ndcurves::Bern":
            m, i = v.f["m"], v.f["i"]
            u = sc(vs[0])
            return MUL(MUL(math.comb(m, i), P.powi(u, i)), P.powi(SUB(1, u), m - i))
        if v.t == "ndcurves::bezier_curve":
            return self.bez_point(v, sc(vs[0]))
        return self.unknown("evaluation of %s" % v.t, [])

    def curve_method(self, e, fn, n, b, obj, args):
        vs = [self.rv(a) for a in args]
        if obj is None:
            if b == "zero":
                d = self.dim(vs[0])
                a = self.ty(e.get("t")).get("a") or []
                pt = self.ty(a[3]["t"]) if len(a) > 3 and "t" in a[3] else {}
                if pt.get("k") == "rec" and pt.get("n") == "Eigen::Matrix":
                    rows = self.eigdims(pt)[0]
                    if rows not in (None, -1, d):
                        self.event("dim", "zero curve of dimension %s of points of dimension %s" % (d, rows))
                return self.mkbez([fill(d, 1, 0)], 0, vs[1] if len(vs) > 1 else 1)
            if b == "bin":
                return math.comb(self.dim(vs[0]), self.dim(vs[1]))
            if b == "makeBernstein":
                m = self.dim(vs[0])
                return Vec(Obj("ndcurves::Bern", {"m": m, "i": i}) for i in range(m + 1))
            return self.unknown(n, args)
        v = self.rv(obj)
        if isinstance(v, Gam):
            v = self.pick(v)
        if isinstance(v, Gam):
            return self.lift1(v, lambda x: self.rv(self.curve_method(e, fn, n, b, self.new(x), args)))
        if isinstance(v, Top):
            return v
        if isinstance(v, Obj) and v.t == "ndcurves::bezier_curve":
            if b == "waypoints":
                return obj.sub(("f", "wps")) if isinstance(obj, Ref) else self.new(v).sub(("f", "wps"))
            if b == "compute_derivate":
                return self.bez_derive(v, self.dim(vs[0]))
            if b == "compute_derivate_ptr":
                return Ptr(self.new(self.bez_derive(v, self.dim(vs[0]))))
            if b == "derivate":
                return self.bez_point(self.bez_derive(v, self.dim(vs[1])), sc(vs[0]))
            if b == "extract":
                return self.bez_extract(v, vs[0], vs[1])
            if b in ("min", "max"):
                return v.f["T_min_" if b == "min" else "T_max_"]
            if b == "dim":
                return v.f["dim_"]
            if b == "degree":
                return v.f["degree_"]
            if b in ("evalBernstein", "evalDeCasteljau", "evalHorner"):
                return self.bez_point(v, sc(vs[0]))
            if b == "waypointAtIndex":
                return self.getel(v.f["wps"], ("i", self.dim(vs[0])))
        if isinstance(v, Obj) and v.t == "ndcurves::Bern":
            return self.curve_eval(v, vs)
        h = self.hooks.get("@curve")
        if h is not None:
            r = h(self, e, fn, n, b, obj, v, vs)
            if r is not NotImplemented:
                return r
        return self.unknown(n, args)
