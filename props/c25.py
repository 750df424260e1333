"""The interface as a program meets it: headers, declarations, definitions, settings."""
import json
import os
import re

import com
import load

RULE = "every header parses alone, when included twice, and after any other header, with and without assertions and solver support; no header defines a function or variable with external linkage that is not inline; everything declared in a header is defined in a header or in the library; size, fields, virtual functions and enumerators of what headers define, the signatures of what they declare, the bodies of inline functions, constants and default arguments are the same under every setting (assertions apart); the library refers only to functions compiled under the same setting"
EXPLAIN = "every header and every source file is parsed on its own under each setting; the declarations, definitions, record layouts and references are collected from the type-checked program and compared"
FLOOR = 400
ASSUME = ["the library is built from every file of src, except the wrapper of GLPK when built without it"]
GEN = os.path.join(load.CACHE, "hdr")


def settings(thorough):
    base = load.flags()
    alt = [f for f in base if f not in ("-DNDEBUG", "-DUSE_GLPK_SOLVER=1", "-O3")]
    out = {"as built": base, "with assertions, without GLPK": alt}
    if thorough:
        out["with assertions"] = [f for f in base if f not in ("-DNDEBUG", "-O3")]
        out["without GLPK"] = [f for f in base if f != "-DUSE_GLPK_SOLVER=1"]
        out["C++20"] = [f.replace("gnu++17", "gnu++20") for f in base]
    return out


def headers():
    root = load.REPO + "/include/"
    hs = [f[len(root):] for f in load.allfiles() if f.startswith(root) and f.endswith((".hh", ".hpp", ".h", ".hxx"))]
    if not hs:
        raise load.Broken("no headers under %s" % root)
    return hs


def unit(h):
    return gen(re.sub(r"\W", "_", h), "#include <%s>\n#include <%s>\n" % (h, h))


def gen(name, s):
    os.makedirs(GEN, exist_ok=True)
    p = os.path.join(GEN, name + ".cpp")
    if not os.path.exists(p) or open(p).read() != s:
        t = "%s.%d" % (p, os.getpid())
        open(t, "w").write(s)
        os.replace(t, p)
    return p


def order(hs, name):
    return gen(name, "".join("#include <%s>\n" % h for h in hs))


def diag(text):
    """first error of a parse, as (file:line, message)"""
    for l in text.split("\n"):
        m = re.match(r"(?:.*?: )?(/[^:\s]+):(\d+):\d+: (?:fatal )?error: (.*)", l)
        if m:
            return "%s:%s" % (com.rel(m.group(1)), m.group(2)), m.group(3)
    return "", text.strip().split("\n")[-1][:200]


def uses(n, out):
    """functions referred to in an exported body"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            f = x.get("fn")
            if isinstance(f, dict) and "u" in f:
                out.setdefault(f["u"], (f["n"], x.get("l")))
            st += [v for v in x.values() if isinstance(v, (dict, list))]
        elif isinstance(x, list):
            st += [v for v in x if isinstance(v, (dict, list))]


def parse(ck, what, names, tus, fl, light, key):
    """exports the units; those that do not parse are violations"""
    for attempt in range(3):
        errs = []
        outs = load.export(tus, fl=fl, light=light, errors=errs)
        lost = [t for t, o in zip(tus, outs) if not o and not any(x.startswith(t + ": ") and diag(x[len(t) + 2:])[0] for x in errs)]
        if not lost:
            break
    else:
        raise load.Broken("%s: no result for %s: %s" % (what, lost, errs[:2]))
    data = {}
    for n, t, o in zip(names, tus, outs):
        if o:
            ck.ok()
            data[n] = json.load(open(o))
            continue
        e = [x for x in errs if x.startswith(t + ": ")]
        w, m = diag(e[0][len(t) + 2:] if e else "")
        ck.fail(key, w or n, "%s: %s does not compile: %s" % (what, n, m))
    return data


def shape(data):
    """what the headers fix: layouts, enumerators, declared functions"""
    recs, enums, fns = {}, {}, {}
    for d in data.values():
        T = d["types"]
        for k, r in d["records"].items():
            if "/include/" in r["file"] and not r.get("lam") and "size" in r:
                fs = [(f["n"], T[f["t"]].get("s") or T[f["t"]].get("n") or T[f["t"]].get("k")) for f in r["f"]]
                recs[k] = (r["n"], r["file"], r["l"], {"size": r["size"], "alignment": r["align"], "fields": fs, "offsets": r["off"], "virtual functions": r.get("virt", [])})
        for k, e in d["enums"].items():
            if e.get("root") and "/include/" in e["file"]:
                enums[k] = (e["n"], e["file"], e["l"], e["size"], {v["n"]: v["v"] for v in e["v"]})
        for x in d["decls"]:
            if "/include/" in x["file"] and x["ext"] and x["k"] == "function":
                fns[x["u"]] = x
    return recs, enums, fns


SKIP = ("i", "d", "l", "t", "le", "q", "mac")


def norm(n):
    """an exported expression or statement without positions; assertions, which settings may leave out, as one mark"""
    if isinstance(n, list):
        return tuple(norm(x) for x in n)
    if not isinstance(n, dict):
        return n
    if n.get("mac") in ("assert", "__ASSERT_VOID_CAST"):
        return "assert"
    if isinstance(n.get("u"), str) and "p" in n and "r" in n:
        return n["u"]                 # a reference to a function
    return tuple(sorted((k, norm(v)) for k, v in n.items() if k not in SKIP))


def meaning(full):
    """inline functions and constants of headers, default arguments of every function"""
    out = {}
    for d in full.values():
        for u, f in d["functions"].items():
            if f.get("implicit"):
                continue
            for i, p in enumerate(f["p"]):
                if p.get("de") is not None:
                    out.setdefault(("default of argument %d of " % (i + 1), u), (f, norm(p["de"])))
            if "/include/" in f["file"]:
                out.setdefault(("", u), (f, norm([f.get("init"), f.get("body")])))
        for g in d["globals"].values():
            if "/include/" in g["file"] and g.get("init") is not None:
                out.setdefault(("the value of ", g["n"]), (g, norm(g["init"])))
    return out


def same_meaning(ck, inl):
    names = list(inl)
    base = inl[names[0]]
    for sn in names[1:]:
        for k, (f, b) in inl[sn].items():
            if k in base:
                ck.require(b == base[k][1], "meaning/" + f["n"], at(f), "%s%s is not the same %s as in the library as built" % (k[0], f["n"], sn))


def at(x):
    return "%s:%d" % (com.rel(x["file"]), x["l"])


def sig(x):
    return "%s(%s)" % (x["n"], ", ".join(x.get("p", [])))


def run(ck):
    hs = headers()
    tus = [unit(h) for h in hs]
    src = load.sources()
    sets = settings(ck.thorough)
    shapes, inl = {}, {}
    ck.units = 0
    declared, hdef = {}, {}
    for sn, fl in sets.items():
        # headers
        data = parse(ck, "header on its own, included twice (%s)" % sn, ["include/" + h for h in hs], tus, fl, True, "header/alone")
        ck.units += len(data)
        shapes[sn] = shape(data)
        for h, d in data.items():
            ck.scenario("%s, %s" % (h, sn))
            for x in d["decls"]:
                if "/include/" not in x["file"]:
                    continue
                if x["def"]:
                    hdef[x["u"]] = x
                    k = (x["u"], "definition")
                    if k not in declared:
                        declared[k] = x
                        kind = x["k"]
                        bad = x["ext"] and not x["inl"] and not (x["tmpl"] or x.get("spec") == 1) and not (kind == "variable" and x.get("const") and not x["ext"])
                        ck.require(not bad, "header/%s" % x["n"], at(x), "%s %s is defined in a header without being inline: a program whose source files include it twice does not link" % (kind, sig(x)))
                elif sn == "as built":
                    declared.setdefault((x["u"], "declaration"), x)
        if sn == "as built" or ck.thorough:
            both = [order(hs, "all"), order(hs[::-1], "reverse")]
            parse(ck, "all headers in one file (%s)" % sn, ["in one order", "in the opposite order"], both, fl, True, "header/order")
        # sources
        names = [com.rel(s) for s in src]
        use, defs = {}, set()
        glpk = any("USE_GLPK_SOLVER" in f for f in fl)
        full = parse(ck, "source file (%s)" % sn, names, src, fl, False, "source/compiles")
        inl[sn] = meaning(full)
        ck.units += len(full)
        for n, d in full.items():
            if not glpk and os.path.basename(n).startswith("glpk"):
                continue
            for x in d["decls"]:
                if x["def"]:
                    defs.add(x["u"])
            for u, f in d["functions"].items():
                if "/src/" in f["file"] or "/include/" in f["file"]:
                    m = {}
                    ck.funcs[u] = "%s (%s:%d)" % (f["n"], com.rel(f["file"]), f["l"])
                    uses([f.get("body"), f.get("init")], m)
                    for k, (nm, l) in m.items():
                        use.setdefault(k, (nm, "%s:%s" % (com.rel(f["file"]), l), f["n"]))
        if len(full) < len(src) or len(data) < len(hs):
            continue
        alldef = defs | set(hdef)
        known = {k[0] for k in declared}
        for u, (nm, w, f) in sorted(use.items(), key=lambda z: z[1]):
            if u in known:
                ck.require(u in alldef, "reference/" + nm, w, "the library built %s refers to %s in %s, but no file of that build defines it" % (sn, nm, f))
        if sn == "as built":
            base = defs
    if not ck.viol:
        decls(ck, declared, base | set(hdef))
    settings_agree(ck, shapes, hs)
    same_meaning(ck, inl)


def decls(ck, declared, defs):
    for (u, kind), x in sorted(declared.items(), key=lambda z: (z[1]["file"], z[1]["l"])):
        if kind == "definition" or x.get("gone"):
            continue
        what = "the template" if x["tmpl"] else "the " + x["k"]
        ck.require(u in defs, "undefined/%s/%d" % (x["n"], len(x.get("p", []))), at(x), "%s %s is declared here, but neither a header nor the library defines it: a program that uses it does not link" % (what, sig(x)))


def settings_agree(ck, shapes, hs):
    names = list(shapes)
    r0, e0, f0 = shapes[names[0]]
    for sn in names[1:]:
        r1, e1, f1 = shapes[sn]
        for k, (n, f, l, a) in sorted(r0.items()):
            if k in r1:
                b = r1[k][3]
                d = [x for x in a if a[x] != b[x]]
                ck.require(not d, "layout/" + n, at({"file": f, "l": l}), "%s has other %s %s than as built: %s instead of %s" % (n, ", ".join(d), sn, str(b[d[0]])[:120] if d else "", str(a[d[0]])[:120] if d else ""))
        for k, (n, f, l, z, vs) in sorted(e0.items()):
            if k in e1:
                w = {x: (vs[x], e1[k][4][x]) for x in vs if x in e1[k][4] and vs[x] != e1[k][4][x]}
                ck.require(not w and z == e1[k][3], "enumeration/" + n, at({"file": f, "l": l}), "the values of %s differ %s: %s" % (n, sn, w))
        for u, x in sorted(f1.items()):
            ck.require(u in f0, "signature/" + x["n"], at(x), "%s, as declared %s, is not what the library defines" % (sig(x), sn))
