import glob
import os
import re

import com
import cover
import load
import oracle as O
import poly as P
from poly import Top
from scen import *
from c15 import same, changed
import c16

RULE = "every Python attribute reads and writes the field of its name and nothing else, every enumeration value has the number of its name, every exported function forwards its arguments in order to the C++ function it stands for and returns that function's result; a result is released by Python exactly when the function allocated it; constraints of mismatched sizes are rejected and undefined results are not readable"
EXPLAIN = "the registration calls of the Python module are collected from the typed syntax tree (class, name, accessor functions, call policy); every accessor and every exported function is analysed by value flow on symbolic objects and arguments, with the C++ function it stands for intercepted"
FLOOR = 330
ASSUME = ["Boost.Python and eigenpy call the registered function with the converted arguments, in order"]

BP = "boost::python::"
PD, RC, RD, CD, CT = "bezier_com_traj::ProblemData", "bezier_com_traj::ResultDataCOMTraj", "solvers::ResultData", "bezier_com_traj::ContactData", "bezier_com_traj::Constraints"
# class -> (python name, {attribute: (field, writable, kind)})
CLASSES = {
    PD: ("ProblemData", dict([(n, (n, True, "copy")) for n in ("c0_", "dc0_", "ddc0_", "c1_", "dc1_", "ddc1_", "useAngularMomentum_", "costFunction_")] +
                             [("GIWCrepresentation_", ("representation_", True, "copy")), ("constraints_", ("constraints_", True, "inner"))])),
    CT: ("Constraints", {"flag_": ("flag_", True, "copy"), "constrainAcceleration_": ("constraintAcceleration_", True, "copy"),
                         "maxAcceleration_": ("maxAcceleration_", True, "copy"), "reduce_h_": ("reduce_h_", True, "copy")}),
    RC: ("ResultDataCOMTraj", {"success": ("success_", False, "copy"), "cost": ("cost_", False, "copy"), "x": ("x", False, "defined"),
                               "c_of_t": ("c_of_t_", False, "owned"), "dL_of_t": ("dL_of_t_", False, "owned")}),
    RD: ("ResultData", {"success": ("success_", False, "copy"), "cost": ("cost_", False, "copy"), "x": ("x", False, "defined")}),
    CD: ("ContactData", {"contactPhase_": ("contactPhase_", True, "phase"), "Kin_": (("Kin_", "kin_"), False, "pair"), "Ang_": (("Ang_", "ang_"), False, "pair")}),
}
METHODS = {CD: ("setKinematicConstraints", "setAngularConstraints"), PD: ("addContact", "clearContacts")}
ENUMS = {"bezier_com_traj::ConstraintFlag": ("ConstraintFlag", "INIT_POS INIT_VEL INIT_ACC INIT_JERK END_POS END_VEL END_ACC END_JERK ONE_FREE_VAR TWO_FREE_VAR THREE_FREE_VAR FOUR_FREE_VAR FIVE_FREE_VAR UNKNOWN"),
         "bezier_com_traj::CostFunction": ("CostFunction", "ACCELERATION DISTANCE_TRAVELED TARGET_END_VELOCITY UNKNOWN_COST"),
         "bezier_com_traj::GIWCRepresentation": ("GIWCRepresentation", "DOUBLE_DESCRIPTION FORCE UNKNOWN_REPRESENTATION"),
         "solvers::SolverType": ("SolverType", "SOLVER_QUADPROG SOLVER_GLPK")}
FUNCS = ("zeroStepCapturability", "computeCOMTraj", "computeEndEffector", "computeEndEffectorConstraints", "computeEndEffectorVelocityCost", "computeEndEffectorDistanceCost", "computeEndEffectorConstantWaypoints")


def tus():
    t = sorted(glob.glob(load.REPO + "/python/**/*.cpp", recursive=True))
    if not t:
        raise load.Broken("no Python module under %s/python" % load.REPO)
    return t


def walk(n, fn):
    if isinstance(n, dict):
        fn(n)
        for v in n.values():
            if isinstance(v, (dict, list)):
                walk(v, fn)
    elif isinstance(n, list):
        for v in n:
            walk(v, fn)


def text(n):
    while isinstance(n, dict) and n.get("k") != "StringLiteral" and isinstance(n.get("e"), dict):
        n = n["e"]
    return n.get("v") if isinstance(n, dict) and n.get("k") == "StringLiteral" else None


def policy(s):
    for p in ("manage_new_object", "reference_existing_object", "return_internal_reference", "copy_const_reference", "copy_non_const_reference", "return_by_value"):
        if p in s:
            return p
    return ""


class Reg:
    """one registration: target class, name, accessor functions with policies"""

    def __init__(self, kind, cls, name, acc, where, node, pol=""):
        self.kind, self.cls, self.name, self.acc, self.where, self.node, self.pol = kind, cls, name, acc, where, node, pol


def accessor(prog, fn, n):
    """(function | ('field', name) | None, policy) of an accessor expression"""
    pol = ""
    while True:
        k = n.get("k")
        if k == "CallExpr" and n.get("fn", {}).get("n") == BP + "make_function":
            pol = policy(n["fn"]["u"])
            n = n["args"][0]
        elif k == "CallExpr" and n.get("fn", {}).get("n") == BP + "make_getter":
            pol = policy(n["fn"]["u"])
            n = n["args"][0]
        elif k == "CallExpr" and n.get("fn", {}).get("n") == BP + "make_setter":
            n = n["args"][0]
        elif k == "LambdaExpr":
            f = prog.funcs.get(n["fn"]["u"])
            if f is None or n.get("caps"):
                raise Abort("accessor given as a lambda that is not analysed")
            return dict((x, y) for x, y in f.items() if x != "cls"), pol
        elif k == "DeclRefExpr":
            f = n.get("fn")
            if f is None:
                return ("field", n.get("n")), pol
            if f["u"] not in prog.funcs:
                raise Abort("accessor %s is not analysed" % f["n"])
            return prog.funcs[f["u"]], pol
        elif isinstance(n.get("e"), dict):
            n = n["e"]
        else:
            ls = []
            walk(n, lambda x: ls.append(x) if x.get("k") == "LambdaExpr" else None)
            if len(ls) != 1:
                return None, pol
            n = ls[0]


def collect(prog):
    """registrations of the module, whatever the shape of the function that makes them"""
    regs, cls = [], {}
    for u, f in prog.funcs.items():
        if "/python/" not in f["file"]:
            continue
        ty = prog.tus[f["tu"]]

        def at(n):
            return "%s:%d" % (com.rel(f["file"]), n.get("l") or f["l"])

        def owner(fn):
            t = ty[fn["cls"]]
            a = t.get("a") or []
            return ty[a[0]["t"]].get("n") if a and "t" in a[0] else None

        def visit(n):
            fn = n.get("fn")
            if not isinstance(fn, dict) or n.get("k") in ("DeclRefExpr", "MemberExpr"):
                return
            nm = fn.get("n", "")
            if nm in (BP + "class_::class_", BP + "enum_::enum_") and n.get("args"):
                s = text(n["args"][0])
                if s is not None and "cls" in fn:
                    regs.append(Reg("class" if "class_" in nm else "enum", owner(fn), s, [], at(n), n))
            elif nm in (BP + "class_::add_property", BP + "class_::def", BP + "class_::def_readonly", BP + "class_::def_readwrite", BP + "class_::setattr"):
                s = text(n["args"][0])
                last = nm.rsplit("::", 1)[1]
                acc = []
                for a in n["args"][1:]:
                    if a.get("k") in ("IntegerLiteral", "StringLiteral", "ImplicitValueInitExpr", "CXXNullPtrLiteralExpr"):
                        continue
                    if a.get("fn", {}).get("n", "").endswith("return_value_policy") or a.get("fn", {}).get("n", "").startswith(BP + "return_"):
                        continue
                    x = accessor(prog, f, a)
                    if x[0] is not None:
                        acc.append(x)
                regs.append(Reg(last, owner(fn), s, acc, at(n["args"][0]), n, policy(fn["u"])))
            elif nm == BP + "enum_::value":
                regs.append(Reg("value", owner(fn), text(n["args"][0]), [], at(n["args"][0]), (f, n["args"][1])))
            elif nm == BP + "def":
                x = accessor(prog, f, n["args"][1])
                if x[0] is not None:
                    regs.append(Reg("function", None, text(n["args"][0]), [x], at(n["args"][0]), n, policy(fn["u"])))
        walk(f["body"], visit)
    return regs


def instance(eng, cls, tag):
    if cls == PD:
        r = c16.prob(eng, tag)
        eng.store(r, eng.load(r).with_("useAngularMomentum_", V.opaque("ang" + tag)))
        for k in ("costFunction_", "representation_"):
            eng.store(r, eng.load(r).with_(k, P.sym(k + tag)))
        return r
    if cls == CT:
        r = c16.constr(eng, tag)
        eng.store(r, eng.load(r).with_("flag_", P.sym("flag" + tag)))
        eng.store(r, eng.load(r).with_("constraintAcceleration_", V.opaque("ca" + tag)))
        return r
    if cls == RC:
        r = c16.result_obj(eng, tag)
        eng.store(r, eng.load(r).with_("success_", V.opaque("ok" + tag)))
        return r
    if cls == RD:
        return eng.new(Obj(RD, {"success_": V.opaque("ok" + tag), "cost_": P.sym("cost" + tag), "x": vec("x" + tag, 4)}))
    if cls == CD:
        return c16.contact(eng, tag)
    raise Abort("no instance of %s" % cls)


def tuple_hook(eng, e, obj, args):
    return Obj("tuple", {"_%d" % i: eng.rv(a) for i, a in enumerate(args)})


class One:
    """analysis of one registered function"""

    def __init__(self, ck, prog, f, what):
        self.ck, self.f, self.what = ck, f, what
        self.eng = engine(prog, {BP + "make_tuple": tuple_hook})
        self.throw = None
        self.w = "%s:%d" % (com.rel(f["file"]), f["l"])

    def arg(self, i, ref):
        t = self.eng.prog.tus[self.f["tu"]][self.f["p"][i]["t"]]
        if t["k"] == "ptr":
            return Ptr(ref) if isinstance(ref, Ref) else ref
        return ref

    def call(self, args, this=None):
        try:
            raw = self.eng.call(self.f, args, this)
            self.raw = raw
            self.res = self.eng.pick(self.eng.rv(raw))
        except AbsThrow as e:
            self.throw = e
            self.res = self.raw = None
        self.ck.scenario(self.what)
        self.ck.absorb(self.eng)
        return self

    def clean(self, key, throws=False):
        if com.bad_events(self.ck, self.eng, key, self.what) or com.bad_state(self.ck, self.eng, key, self.what):
            return False
        if not throws:
            t = self.throw
            if t is not None or self.eng.throws:
                return self.ck.require(False, key + "/throws", com.rel(t.loc) if t else com.rel(self.eng.throws[0][3]), "%s: throws %s" % (self.what, t.typ if t else self.eng.throws[0][1]))
        return True


def fieldname(x):
    return x[1] if isinstance(x, tuple) and x and x[0] == "field" else None


def same_but(ck, o, key, before, after, field, what):
    b, a = o.eng.pick(before), o.eng.pick(after)
    for k in sorted(b.f):
        if k != field:
            ck.require(k in a.f and same(o.eng, b.f[k], a.f[k]), key, o.w, "%s changes %s" % (what, k))


def getter(ck, prog, cls, r, spec):
    field, _, kind = spec
    pyn = CLASSES[cls][0]
    key = "%s/%s" % (pyn, r.name)
    what = "%s.%s" % (pyn, r.name)
    acc, pol = r.acc[0]
    n = fieldname(acc)
    if n is not None:
        ck.require(n == field, key, r.where, "%s exposes %s" % (what, n))
        return
    o = One(ck, prog, acc, "reading " + what)
    if len(acc["p"]) != (0 if acc.get("cls") else 1):
        ck.require(False, key, r.where, "%s: the getter has %d parameters" % (what, len(acc["p"])))
        return
    a = instance(o.eng, cls, "a")
    b0 = o.eng.load(a)
    o.call([] if acc.get("cls") else [o.arg(0, a)], a if acc.get("cls") else None)
    if not o.clean(key):
        return
    same_but(ck, o, key + "/const", b0, o.eng.load(a), None, "reading " + what)
    res, ptr = o.res, None
    if isinstance(res, Ptr):
        ptr = res.ref
        if not ck.require(ptr is not None, key, o.w, "%s: null" % what):
            return
        val = o.eng.load(ptr)
    else:
        val = res
    if kind == "pair":
        t = o.res
        ok = isinstance(t, Obj) and t.t == "tuple" and len(t.f) == 2 and same(o.eng, t.f["_0"], b0.f[field[0]]) and same(o.eng, t.f["_1"], b0.f[field[1]])
        ck.require(ok, key, o.w, "%s is not the pair of %s and %s" % (what, field[0], field[1]))
        undefined(ck, prog, cls, acc, key, what, dict([(field[1], Mat(0, 1, [])), (field[0], Mat(0, 3, []))]))
        # as the constructors leave them
        undefined(ck, prog, cls, acc, key, what, dict([(field[1], Mat(0, 1, [])), (field[0], Mat(3, 3, [0.0] * 9))]))
        return
    if kind == "phase":
        ck.require(ptr is not None and same(o.eng, Ptr(ptr), o.eng.pick(b0.f[field])), key, o.w, "%s is not the contact phase of the contact" % what)
        ck.require((pol or r.pol) in ("reference_existing_object", "return_internal_reference"), key + "/policy", r.where, "%s returns an object it did not allocate with policy %r" % (what, pol or r.pol))
        undefined(ck, prog, cls, acc, key, what, {field: NULL})
        return
    ck.require(same(o.eng, val, b0.f[field]), key, o.w, "%s is not field %s" % (what, field))
    inner = isinstance(o.raw, Ref) and o.raw.cell == a.cell if ptr is None else ptr.cell == a.cell
    if kind == "inner":
        ck.require(inner, key + "/alias", o.w, "%s is a copy: writing to it does not change the problem" % what)
    if ptr is not None:
        want = ("reference_existing_object", "return_internal_reference") if inner else ("manage_new_object",)
        ck.require((pol or r.pol) in want, key + "/policy", r.where, "%s returns %s with policy %r" % (what, "an object it did not allocate" if inner else "a new object", pol or r.pol))
    if kind == "defined":
        undefined(ck, prog, cls, acc, key, what, {field: Mat(0, 1, [])})
    for x in numbers(field, o.eng.rv(b0.f[field])):
        o = One(ck, prog, acc, "reading %s: %s" % (what, show(x)))
        a = instance(o.eng, cls, "a")
        o.eng.store(a, o.eng.load(a).with_(field, x))
        b0 = o.eng.load(a)
        o.call([] if acc.get("cls") else [o.arg(0, a)], a if acc.get("cls") else None)
        if not o.clean(key):
            return
        same_but(ck, o, key + "/const", b0, o.eng.load(a), None, "reading " + what)
        val = o.eng.load(o.res.ref) if isinstance(o.res, Ptr) and o.res.ref is not None else o.res
        ck.require(same(o.eng, val, x), key + "/value", o.w, "%s is not field %s when that is %s" % (what, field, show(x)))


def undefined(ck, prog, cls, acc, key, what, fields):
    o = One(ck, prog, acc, "reading undefined " + what)
    a = instance(o.eng, cls, "a")
    for k, v in fields.items():
        o.eng.store(a, o.eng.load(a).with_(k, v))
    o.call([o.arg(0, a)])
    if o.clean(key, True):
        ck.require(o.throw is not None, key + "/undefined", o.w, "%s can be read when it is not defined" % what)


def newvalue(eng, cls, field, ty):
    """a value a setter of the field can be given"""
    b = instance(eng, cls, "b")
    if field == "contactPhase_":
        return eng.load(b).f[field]
    return b.sub(("f", field))


def numbers(field, val):
    """values of the field that a program could single out"""
    if isinstance(val, Mat):
        n = val.r * val.c
        return [Mat(val.r, val.c, [float(x)] * n) for x in (0, 1, -1000000) if n] + [Mat(val.r, val.c, [float(i) - 1 for i in range(n)]) for _ in range(1) if n]
    if field in ("flag_", "costFunction_", "representation_"):
        return list(range(0, 18)) + [35, 64, 128, 256, 1083, 4095, 4096, 8191]
    if isinstance(val, V.B):
        return [True, False]
    if isinstance(val, P.Poly):
        return [0.0, 1.0, -1.0, 0.5, -0.5, 1e-14, 5000.0, -100000.0, 1e9]
    return []


def show(x):
    return "the %d-vector of %s" % (x.r, ", ".join("%g" % y for y in x.d)) if isinstance(x, Mat) else str(x)


def setter(ck, prog, cls, r, spec):
    field, _, kind = spec
    pyn = CLASSES[cls][0]
    key = "%s/%s/set" % (pyn, r.name)
    what = "%s.%s" % (pyn, r.name)
    acc, _ = r.acc[1]
    n = fieldname(acc)
    if n is not None:
        ck.require(n == field, key, r.where, "writing %s writes %s" % (what, n))
        return
    o = One(ck, prog, acc, "writing " + what)
    meth = bool(acc.get("cls"))
    a = instance(o.eng, cls, "a")
    b0 = o.eng.load(a)
    v = newvalue(o.eng, cls, field, None)
    val = o.eng.rv(v)
    vt = o.eng.prog.tus[acc["tu"]][acc["p"][-1]["t"]]
    if vt["k"] == "ptr" and isinstance(v, Ref):
        v = Ptr(v)
    o.call([v] if meth else [o.arg(0, a), v], a if meth else None)
    if not o.clean(key):
        return
    o.w = o.w
    af = o.eng.pick(o.eng.load(a)).f
    ck.require(same(o.eng, af[field], val), key, o.w, "writing %s does not store the value in %s" % (what, field))
    same_but(ck, o, key + "/only", b0, o.eng.load(a), field, "writing %s" % what)
    for x in numbers(field, val):
        o = One(ck, prog, acc, "writing %s: %s" % (what, show(x)))
        a = instance(o.eng, cls, "a")
        b0 = o.eng.load(a)
        v = o.eng.new(x)
        o.call([v] if meth else [o.arg(0, a), v], a if meth else None)
        if not o.clean(key):
            return
        ck.require(same(o.eng, o.eng.pick(o.eng.load(a)).f[field], x), key + "/value", o.w, "writing %s does not store the value %s" % (what, show(x)))
        same_but(ck, o, key + "/only", b0, o.eng.load(a), field, "writing %s" % what)


def constraint_method(ck, prog, r):
    M, m = {"setKinematicConstraints": ("Kin_", "kin_"), "setAngularConstraints": ("Ang_", "ang_")}[r.name]
    key = "ContactData/" + r.name
    acc = r.acc[0][0]
    for rows, nb in ((2, 2), (3, 3), (0, 0), (2, 3), (3, 1), (1, 2), (2, 0)):
        o = One(ck, prog, acc, "%s with %d rows and %d bounds" % (r.name, rows, nb))
        a = instance(o.eng, CD, "a")
        b0 = o.eng.load(a)
        A, b = mat("NK", rows, 3), vec("nk", nb)
        o.call([o.arg(0, a), o.eng.new(A), o.eng.new(b)])
        if not o.clean(key, rows != nb):
            return
        if rows != nb:
            ck.require(o.throw is not None, key + "/sizes", o.w, "%s: a matrix of %d rows with %d bounds is accepted" % (r.name, rows, nb))
            same_but(ck, o, key + "/sizes", b0, o.eng.load(a), None, "rejected " + r.name)
        else:
            f = o.eng.pick(o.eng.load(a)).f
            ck.require(same(o.eng, f[M], A) and same(o.eng, f[m], b), key, o.w, "%s does not store the matrix in %s and the bounds in %s" % (r.name, M, m))
            for k in sorted(b0.f):
                if k not in (M, m):
                    ck.require(same(o.eng, f[k], b0.f[k]), key + "/only", o.w, "%s changes %s" % (r.name, k))


def contact_method(ck, prog, r):
    for n in (2, 0, 1, 3, 7):
        for shape in (("full", "empty", "no phase", "one sided") if r.name == "addContact" else ("full",)):
            contact_case(ck, prog, r, n, shape)


def contact_case(ck, prog, r, n, shape):
    acc = r.acc[0][0]
    key = "ProblemData/" + r.name
    o = One(ck, prog, acc, r.name)
    a = instance(o.eng, PD, "a")
    if n != 2:
        o.eng.store(a, o.eng.load(a).with_("contacts_", Vec([o.eng.load(c16.contact(o.eng, "k%d" % i)) for i in range(n)])))
    b0 = o.eng.load(a)
    old = c16.deep(o.eng, b0.f["contacts_"]).v
    if r.name == "addContact":
        c = c16.contact(o.eng, "new", phase=shape != "no phase", default=shape == "empty", sizes=(2, 2, 1, 1) if shape != "one sided" else (3, 0, 40, 40))
        c0 = c16.deep(o.eng, o.eng.load(c))
        o.call([o.arg(0, a), o.arg(1, c)])
        want = list(old) + [c0]
    else:
        o.call([o.arg(0, a)])
        want = []
    if not o.clean(key):
        return
    got = c16.deep(o.eng, o.eng.load(a)).f["contacts_"].v
    if ck.require(len(got) == len(want), key, o.w, "%d contacts after %s, %d expected" % (len(got), r.name, len(want))):
        for i, (x, y) in enumerate(zip(got, want)):
            ck.require(same(o.eng, x, y), key, o.w, "contact %d after %s: %s differs" % (i, r.name, changed(o.eng, x, y)))
    same_but(ck, o, key + "/only", b0, o.eng.load(a), "contacts_", r.name)


def result_of(o):
    """object a wrapper hands to Python, and whether it allocated it"""
    if isinstance(o.res, Ptr) and o.res.ref is not None:
        return o.eng.load(o.res.ref), True
    return o.res, False


def wrapper(ck, prog, r, key):
    """an exported function: (parameter names, types) decide which overload it is"""
    f, pol = r.acc[0]
    n = len(f["p"])
    o = One(ck, prog, f, "%s with %d arguments" % (r.name, n))
    eng = o.eng
    log = []

    def record(name):
        def h(eng, e, obj, args):
            log.append((name, [eng.rv(a) for a in args], eng.here()))
            return eng.load(c16.result_obj(eng, "w"))
        return h
    for nm in ("solve0step", "computeCOMTraj", "solveEndEffector"):
        eng.hooks["bezier_com_traj::" + nm] = record(nm)
    T = P.sym("T", pos=True)
    dt = P.sym("dt", pos=True)
    if r.name == "zeroStepCapturability":
        eq = eng.new(equilibrium("a"))
        kin = n == 9
        if not ck.require(n in (7, 9), key, r.where, "%s has %d parameters" % (r.name, n)):
            return
        for ang, rows, dt in ((True, 3, dt), (False, 3, dt), (True, 1, -1.0), (False, 0, 0.05), (True, 90, 0.0)):
            log.clear()
            K, k = mat("K", rows, 3), Mat(rows, 1, vec("k", rows).d)
            c, dc, l = v3("com"), v3("dcom"), v3("l")
            args = [Ptr(eq), eng.new(c), eng.new(dc), eng.new(l), ang, T, dt] + ([eng.new(K), eng.new(k)] if kin else [])
            o.call(args)
            if not o.clean(key):
                return
            if not ck.require(len(log) == 1 and log[0][0] == "solve0step", key, o.w, "%s does not call solve0step once" % r.name):
                return
            a = log[0][1]
            p = eng.pick(a[0]).f
            for fld, want in (("c0_", c), ("dc0_", dc), ("l0_", l), ("useAngularMomentum_", ang)):
                ck.require(same(eng, p[fld], want), key + "/" + fld, o.w, "%s: %s of the problem is not the argument" % (o.what, fld))
            d = eng.load(make(eng, PD)).f
            for fld in d:
                if fld not in ("c0_", "dc0_", "l0_", "useAngularMomentum_", "contacts_"):
                    ck.require(same(eng, p[fld], d[fld]), key + "/" + fld, o.w, "%s: %s of the problem is not the default" % (o.what, fld))
            cs = p["contacts_"].v
            if ck.require(len(cs) == 1, key + "/contacts", o.w, "%s: the problem has %d contacts" % (o.what, len(cs))):
                cf = c16.deep(eng, cs[0]).f
                ck.require(same(eng, cf["contactPhase_"], c16.deep(eng, Ptr(eq))), key + "/phase", o.w, "%s: the contact phase is not the argument" % o.what)
                ck.require(same(eng, cf["kin_"], k if kin else Mat(0, 1, [])) and (not kin or same(eng, cf["Kin_"], K)), key + "/kin", o.w, "%s: the kinematic constraints are not the arguments" % o.what)
                ck.require(cf["ang_"].r == 0, key + "/ang", o.w, "%s: the contact has angular constraints" % o.what)
            ts = eng.pick(a[1])
            ck.require(isinstance(ts, Vec) and len(ts.v) == 1 and P.equal(ts.v[0], T), key + "/time", o.w, "%s: the durations are not the argument" % o.what)
            ck.require(P.equal(a[2], dt), key + "/step", o.w, "%s: the time step is not the argument" % o.what)
            returned(ck, o, r, key, pol, c16.result_obj(eng, "w"))
    elif r.name == "computeCOMTraj":
        if not ck.require(n in (3, 4), key, r.where, "%s has %d parameters" % (r.name, n)):
            return
        for solver, k, dt in [(x, y, z) for x in ((1, 2) if n == 4 else (1,)) for y, z in ((2, dt), (1, -1.0), (3, 0.01), (7, 0.0))]:
            log.clear()
            pd = instance(eng, PD, "a")
            Ts = vec("Ts", k)
            before = eng.load(pd)
            o.call([pd, eng.new(Ts), dt] + ([solver] if n == 4 else []))
            if not o.clean(key):
                return
            if not ck.require(len(log) == 1 and log[0][0] == "computeCOMTraj", key, o.w, "%s does not call computeCOMTraj once" % r.name):
                return
            a = log[0][1]
            ck.require(same(eng, c16.deep(eng, a[0]), c16.deep(eng, before)), key + "/problem", o.w, "%s: the problem is not the argument" % o.what)
            ck.require(same(eng, a[1], Ts), key + "/time", o.w, "%s: the durations are not the argument" % o.what)
            ck.require(P.equal(a[2], dt), key + "/step", o.w, "%s: the time step is not the argument" % o.what)
            ck.require(len(a) > 3 and a[3] == solver, key + "/solver", o.w, "%s: the solver is not %s" % (o.what, "the argument" if n == 4 else "the default"))
            returned(ck, o, r, key, pol, c16.result_obj(eng, "w"))
    elif r.name == "computeEndEffector":
        if not ck.require(n == 2, key, r.where, "%s has %d parameters" % (r.name, n)):
            return
        pd = instance(eng, PD, "a")
        before = eng.load(pd)
        o.call([pd, T])
        if not o.clean(key):
            return
        if not ck.require(len(log) == 1 and log[0][0] == "solveEndEffector", key, o.w, "%s does not call solveEndEffector once" % r.name):
            return
        a = log[0][1]
        ck.require(same(eng, c16.deep(eng, a[0]), c16.deep(eng, before)), key + "/problem", o.w, "%s: the problem is not the argument" % o.what)
        ck.require(P.equal(a[2], T), key + "/time", o.w, "%s: the duration is not the argument" % o.what)
        ck.require(P.isnum(a[3]) and a[3] == 0, key + "/weight", o.w, "%s: there is no path to follow but the weight of the distance is %s" % (o.what, a[3]))
        returned(ck, o, r, key, pol, c16.result_obj(eng, "w"))
    else:
        end_effector(ck, prog, r, key, f, pol)


def returned(ck, o, r, key, pol, want):
    v, fresh = result_of(o)
    ck.require(isinstance(v, Obj) and same(o.eng, v, o.eng.load(want)), key + "/result", o.w, "%s does not return the result of the C++ function" % o.what)
    if fresh:
        ck.require((pol or r.pol) == "manage_new_object", key + "/policy", r.where, "%s returns a new object with policy %r" % (r.name, pol or r.pol))


def end_effector(ck, prog, r, key, f, pol):
    fams = list(O.EFF.values())
    dist = r.name == "computeEndEffectorDistanceCost"
    for flag, npt in [(x, y) for x in (fams if ck.thorough else fams[:4]) for y in ((3, 4, 7, 24, 130) if dist else (3,))]:
        o = One(ck, prog, f, "%s, flag %d%s" % (r.name, flag, ", %d points" % npt if dist else ""))
        eng = o.eng
        pd = problem(eng, flag, 0)
        T = P.sym("T", pos=True)
        name = "bezier_com_traj::"
        call = lambda n, args: eng.rv(eng.call([g for g in prog.fn(name + n, len(args))][0], args))
        pi = call("computeConstantWaypoints", [pd, T])
        if r.name == "computeEndEffectorConstantWaypoints":
            o.call([pd, T])
            if not o.clean(key):
                return
            pts = pi.v
            want = Mat(3, len(pts), [pts[j].d[i] for i in range(3) for j in range(len(pts))])
            ck.require(isinstance(o.res, Mat) and same(eng, o.res, want), key, o.w, "%s: the columns are not the constant control points" % o.what)
            continue
        if r.name == "computeEndEffectorConstraints":
            args = [pd, T]
            want = call("computeEndEffectorConstraints", [pd, T, eng.new(pi)])
        elif r.name == "computeEndEffectorVelocityCost":
            args = [pd, T]
            want = call("computeVelocityCost", [pd, T, eng.new(pi)])
        else:
            pl = mat("pts", 3, npt)
            args = [pd, T, npt, pl]
            path = Vec([Mat(3, 1, [pl.g(i, j) for i in range(3)]) for j in range(npt)])
            c = [g for g in prog.fn(name + "computeDistanceCostFunction", 4) if "vector" in prog.tus[g["tu"]][prog.tus[g["tu"]][g["p"][3]["t"]].get("e", g["p"][3]["t"])].get("s", "")]
            if not c:
                raise load.Broken("computeDistanceCostFunction on a list of points not found")
            want = eng.rv(eng.call(c[0], [npt, pd, T, eng.new(path)]))
        o.call(args)
        if not o.clean(key):
            return
        v, fresh = result_of(o)
        # what Python reads of it
        got = []
        for m in ("A", "b"):
            g = [x for x in prog.fn("bezier_com_traj::MatrixVector::" + m, 0)]
            if not g:
                raise load.Broken("accessors of the pair returned by %s not found" % r.name)
            cell = eng.new(v)
            got.append(eng.rv(eng.call(g[0], [], cell)))
        for x, fld, m in zip(got, ("first", "second"), "Ab"):
            ck.require(same(eng, x, want.f[fld]), key + "/" + m, o.w, "%s: %s is not that of the C++ function" % (o.what, m))
        ck.require(fresh and (pol or r.pol) == "manage_new_object", key + "/policy", r.where, "%s returns a new object with policy %r" % (r.name, pol or r.pol))


def constant(prog, f, n):
    eng = engine(prog)
    fr = Frame(f, f["tu"])
    eng.frames.append(fr)
    return eng.rv(eng.ev(n))


def one(ck, it):
    prog = com.program(tus())
    regs = collect(prog)
    kind = it[0]
    if kind == "attr":
        _, cls, name = it
        py, attrs = CLASSES[cls]
        rs = [r for r in regs if r.cls == cls and r.name == name and r.kind in ("add_property", "def_readonly", "def_readwrite")]
        if not ck.require(len(rs) == 1, "%s/%s" % (py, name), module(prog), "%s.%s is registered %d times" % (py, name, len(rs))):
            return
        r = rs[0]
        spec = attrs[name]
        if not r.acc:
            raise Abort("no accessor of %s.%s" % (py, name))
        getter(ck, prog, cls, r, spec)
        if spec[1]:
            if len(r.acc) > 1:
                setter(ck, prog, cls, r, spec)
            else:
                ck.require(fieldname(r.acc[0][0]) is not None and r.kind == "def_readwrite", "%s/%s/set" % (py, name), r.where, "%s.%s cannot be written" % (py, name))
    elif kind == "method":
        _, cls, name = it
        py = CLASSES[cls][0]
        rs = [r for r in regs if r.cls == cls and r.name == name and r.kind == "def"]
        if not ck.require(len(rs) == 1, "%s/%s" % (py, name), module(prog), "%s.%s is registered %d times" % (py, name, len(rs))):
            return
        if cls == CD:
            constraint_method(ck, prog, rs[0])
        else:
            contact_method(ck, prog, rs[0])
    elif kind == "function":
        _, name, idx = it
        rs = [r for r in regs if r.kind == "function" and r.name == name]
        wrapper(ck, prog, rs[idx], "%s/%d" % (name, len(rs[idx].acc[0][0]["p"])))


def module(prog):
    for n, fs in prog.byname.items():
        if "init_module" in n:
            return "%s:%d" % (com.rel(fs[0]["file"]), fs[0]["l"])
    return "python/bezier_com_traj.cpp:1"


def tables(ck, prog, regs):
    for cls, (py, _) in CLASSES.items():
        c = [r for r in regs if r.kind == "class" and r.cls == cls]
        if not c:
            raise load.Broken("class %s is not registered" % cls)
        ck.require(len(c) == 1 and c[0].name == py, "class/" + py, c[0].where, "class %s is registered as %s" % (cls, ", ".join(r.name for r in c)))
    cd = [r for r in regs if r.kind == "class" and r.cls == CD][0]
    seen = []
    walk(cd.node, lambda n: seen.append(n["fn"]["u"]) if isinstance(n.get("fn"), dict) and "with_custodian_and_ward" in str(n["fn"].get("n")) else None)
    ck.require(any("with_custodian_and_ward>#Vl1#Vl2#" in u for u in seen), "ContactData/lifetime", cd.where, "contact data built on a contact phase do not keep it alive")
    for en, (py, names) in ENUMS.items():
        d = [e for e in prog.enums.values() if e["n"] == en]
        if not d:
            raise load.Broken("enumeration %s not found" % en)
        num = {x["n"]: x["v"] for x in d[0]["v"]}
        c = [r for r in regs if r.kind == "enum" and r.cls == en]
        if not c:
            raise load.Broken("enumeration %s is not registered" % en)
        ck.require(len(c) == 1 and c[0].name == py, "enum/" + py, c[0].where, "%s is registered as %s" % (en, c[0].name))
        vals = [r for r in regs if r.kind == "value" and r.cls == en]
        for r in vals:
            got = constant(prog, *r.node)
            if r.name in num:
                ck.require(got == num[r.name], "enum/%s/%s" % (py, r.name), r.where, "%s.%s has the value %s of another enumerator, not %s" % (py, r.name, got, num[r.name]))
        for n in names.split():
            ck.require(sum(r.name == n for r in vals) == 1, "enum/%s/%s" % (py, n), c[0].where, "%s.%s is registered %d times" % (py, n, sum(r.name == n for r in vals)))
    ck.scenario("registrations of the module")


def run(ck):
    prog = com.program(tus())
    ck.units = len(prog.tus)
    regs = collect(prog)
    ck.notes["registrations"] = len(regs)
    tables(ck, prog, regs)
    out = [("attr", c, n) for c, (py, a) in CLASSES.items() for n in a]
    out += [("method", c, n) for c, ms in METHODS.items() for n in ms]
    for n in FUNCS:
        k = [r for r in regs if r.kind == "function" and r.name == n]
        want = 2 if n in ("zeroStepCapturability", "computeCOMTraj") else 1
        ck.require(len(k) == want, "function/" + n, module(prog), "%s is registered %d times, %d expected" % (n, len(k), want))
        out += [("function", n, i) for i in range(len(k))]
    ck.map(one, out)
