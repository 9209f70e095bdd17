"""Data-object accessors and Python bindings."""
import os, re
from kda import cxx
from kda.core import AnalysisBroken
from kda.nf import *
from kda.summ import Summ, THIS, Giveup, root

# overload families that are documented to address different quantities by arity, and documented aliases
ALIASES = [{"terrainRotation", "terrainOrientation"}]


def small(prog):
    memo = {}

    def f(q):
        if q not in memo:
            memo[q] = all(len(repr(g["body"])) < 900 for g in prog.byqual.get(q, []))
        return memo[q]
    return f


def classify(prog, f, inl, first=THIS):
    """('get', location) | ('set', location, symbol) | None for a one-quantity member function or a free function whose first parameter is the object"""
    ps = f["params"]
    free = "::" not in f["qual"] or f["qual"].rsplit("::", 1)[0] not in prog.classes
    args = {q[0]: mk("sym", "a%d" % (i - (1 if free else 0))) for i, q in enumerate(ps)}
    this = THIS
    if free:
        if not ps:
            return None
        args[ps[0][0]] = THIS
        this = None
    S = Summ(prog, inline=inl)
    fx = S.run(f, args, this) if this is not None else S.run(f, args)
    if S.unknown:
        return None
    r = S.retval
    fx = [e for e in fx if e.kind != "ret"]
    if r is not None and r.op in ("f", "i") and not fx and root(r) is THIS:
        return ("get", r)
    if (r is None or r.op == "none") and len(fx) == 1 and fx[0].kind == "set" and fx[0].guard == T and not fx[0].loops \
            and fx[0].value.op == "sym" and root(fx[0].target) is THIS:
        return ("set", fx[0].target, fx[0].value)
    return None


def state_check(ctx):
    ctx.rule("accessor overloads of one name address one stored quantity; a setter overload stores its argument, unconditionally, in the quantity its getter reads; "
             "accessors of different names address different quantities")
    prog = cxx.load("/")
    ctx.unit(*prog.units)
    inl = small(prog)
    acc = {}
    for k, f in prog.fns.items():
        if "::" not in f["qual"] or f.get("static") or "/srcpy/" in f["file"] or f["file"].startswith(cxx.VERIF):
            continue
        cls, nm = f["qual"].rsplit("::", 1)
        if cls not in prog.classes or nm.startswith("operator") or nm in ("get", "set") or nm == cls.rsplit("::", 1)[-1]:
            continue
        if len(f["body"]) > 4 or len(repr(f["body"])) > 1200:
            continue
        try:
            c = classify(prog, f, inl)
        except Giveup:
            continue
        if c:
            acc.setdefault(cls, {}).setdefault(nm, []).append((c, len(f["params"]), f))
    n = 0
    for cls, m in sorted(acc.items()):
        owners = {}
        for nm, l in sorted(m.items()):
            gets = [x for x in l if x[0][0] == "get"]
            for c, ar, f in l:
                n += 1
                ctx.fn(f["key"])
            for ar in {x[1] for x in gets}:
                g = [x for x in gets if x[1] == ar]
                ref = g[0]
                owners.setdefault(ref[0][1], set()).add(nm)
                oid = "%s::%s/%d" % (cls, nm, ar)
                bad = [x for x in g[1:] if x[0][1] is not ref[0][1]]
                ctx.check(not bad, oid + " read", "%s:%d" % (bad[0][2]["file"], bad[0][2]["line"]) if bad else ref[2]["file"],
                          "overloads read different quantities: %s" % ", ".join("%s -> %s" % (x[2]["key"], show(x[0][1])) for x in g))
                for x in l:
                    if x[0][0] == "set" and x[1] == ar + 1:
                        ok = x[0][1] is ref[0][1] and x[0][2] is mk("sym", "a%d" % ar)
                        ctx.check(ok, oid + " write", "%s:%d" % (x[2]["file"], x[2]["line"]),
                                  "the setter stores %s in %s, the getter reads %s" % (show(x[0][2]), show(x[0][1]), show(ref[0][1])))
            for x in l:
                if x[0][0] == "set" and not [g for g in gets if g[1] == x[1] - 1]:
                    owners.setdefault(x[0][1], set()).add(nm)
        for loc, ns in owners.items():
            ctx.check(len(ns) == 1 or ns in ALIASES, "%s %s" % (cls, "/".join(sorted(ns))), cls,
                      "accessors %s of %s address the same quantity %s" % (sorted(ns), cls, show(loc)))
    ctx.count("accessors", n)


# ------------------------------------------------------------------ bindings
def inl2(inl):
    return lambda q: q.endswith(("::get", "::set")) or inl(q)


def strip_t(q):
    return re.sub(r"^pybind11::(class_|enum_)<", "", q)


def bind_calls(prog):
    """[(kind, bound class or enum, python name, [callables], fn)]"""
    out = []

    def walk(x, f):
        if isinstance(x, list):
            if x and x[0] == "call" and isinstance(x[1], str) and x[1].startswith(("pybind11::class_<", "pybind11::enum_<")):
                m = re.match(r"pybind11::(class_|enum_)<([\w:]+).*>::(\w+)$", x[1])
                if m and x[3] and isinstance(x[3][0], list) and x[3][0][0] == "str":
                    out.append((m.group(3), m.group(2), x[3][0][1], x[3][1:], f))
            for y in x:
                walk(y, f)
        elif isinstance(x, dict):
            for y in x.values():
                walk(y, f)
    for k, f in prog.fns.items():
        if "/srcpy/" in f["file"]:
            walk(f["body"], f)
    return out


def callee(prog, a):
    """function record behind a bound callable, or None for lambdas and the like"""
    while isinstance(a, list) and a and a[0] in ("un", "cast", "unk", "ctor", "init"):
        sub = [y for y in a[1:] if isinstance(y, list) and y]
        if not sub:
            return None
        a = sub[-1] if a[0] in ("un", "cast") else sub[0]
        if a and isinstance(a[0], list):
            a = a[0]
    if isinstance(a, list) and a and a[0] == "fnref":
        f = prog.fns.get(a[2])
        return f if f is not None else ("name", a[1])
    return None


def read_table(path):
    rows = []
    for ln in open(path):
        ln = ln.split("#")[0].split()
        if ln:
            rows.append(ln)
    return rows


def quantity(prog, f, inl):
    try:
        return classify(prog, f, inl)
    except Giveup:
        return None


def bindings_check(ctx):
    ctx.rule("every bound enumerator name denotes the C++ enumerator of that name; every bound property reads and writes the one quantity the binding table assigns to its name; "
             "every bound method calls the C++ member the table assigns to its name")
    prog = cxx.load("/")
    ctx.unit(*[u for u in prog.units if "/srcpy/" in u])
    inl = small(prog)
    calls = bind_calls(prog)
    if len(calls) < 100:
        raise AnalysisBroken("only %d binding calls recognised" % len(calls))
    have = {}
    for kind, cls, name, args, f in calls:
        have.setdefault((cls, name), []).append((kind, args, f))
        ctx.fn(f["key"])
    rows = read_table(os.path.join(cxx.VERIF, "spec", "bindings.txt"))
    seen = set()
    for cls, name, kind, ref in rows:
        seen.add((cls, name))
        oid = "%s.%s" % (cls, name)
        hs = have.get((cls, name))
        if not hs:
            ctx.bad(oid, cls, "the Python name %s of %s is no longer bound" % (name, cls))
            continue
        for k, args, f in hs:
            where = "%s:%d" % (f["file"], f["line"])
            if kind == "enum":
                e = args[0]
                while isinstance(e, list) and e[0] in ("cast", "ctor"):
                    e = [y for y in e[1:] if isinstance(y, list)][-1]
                got = e[1].rsplit("::", 1)[-1] if isinstance(e, list) and e[0] == "enum" else None
                if got is None:
                    ctx.undecided(oid, where, "bound value is not an enumerator constant")
                else:
                    ctx.check(got == ref, oid, where, "Python name %s denotes C++ enumerator %s, not %s" % (name, got, ref))
                continue
            fs = [callee(prog, a) for a in args if not (isinstance(a, list) and a and a[0] in ("str", "num", "null"))]
            if kind in ("call", "get", "set"):
                fs = fs[:1]
            if not fs or any(x is None for x in fs):
                ctx.undecided(oid, where, "bound through a lambda or helper")
                continue
            reff = [g for g in prog.byqual.get(ref, [])]
            if kind == "call":
                nm = fs[0][1] if isinstance(fs[0], tuple) else fs[0]["qual"]
                if nm == ref:
                    ctx.ok(oid)
                    continue
                a = quantity(prog, fs[0], inl) if not isinstance(fs[0], tuple) else None
                b = next((q for q in (quantity(prog, g, inl) for g in reff) if q), None)
                if a and b:
                    ctx.check(a[1] is b[1], oid, where, "bound to %s which addresses %s, the table names %s (%s)" % (nm, show(a[1]), ref, show(b[1])))
                elif nm.rsplit("::", 1)[-1] != ref.rsplit("::", 1)[-1] and (isinstance(fs[0], tuple) or reff):
                    ctx.bad(oid, where, "Python %s calls %s, not %s" % (name, nm, ref))
                else:
                    ctx.undecided(oid, where, "bound to %s" % nm)
                continue
            # properties: getter and setter address the quantity of the reference accessor
            b = next((q for q in (quantity(prog, g, inl) for g in reff) if q), None)
            for i, x in enumerate(fs):
                lab = oid + (" getter" if i == 0 and kind != "set" else " setter")
                q = quantity(prog, x, inl) if not isinstance(x, tuple) else None
                xn = x[1] if isinstance(x, tuple) else x["key"]
                if q is None or b is None:
                    same = (x[1] if isinstance(x, tuple) else x["qual"]) == ref
                    if same:
                        ctx.ok(lab)
                    elif not isinstance(x, tuple) and reff and x["qual"].rsplit("::", 1)[0] == ref.rsplit("::", 1)[0] and kind != "set":
                        ctx.bad(lab, where, "%s is bound to %s, not %s" % (name, xn, ref))
                    else:
                        ctx.undecided(lab, where, "not a one-quantity accessor: %s" % xn)
                    continue
                want = "get" if lab.endswith("getter") else "set"
                loc = q[1]
                if kind == "set" or want == "set":
                    ok = q[0] == "set" and loc is b[1]
                    if ok and kind == "set":
                        ok = q[2] is mk("sym", "a%d" % (len(x["params"]) - 2))
                else:
                    ok = q[0] == "get" and loc is b[1]
                ctx.check(ok, lab, "%s:%d" % (x["file"], x["line"]) if not isinstance(x, tuple) else where,
                          "%s.%s %ss %s; the quantity of that name is %s" % (cls, name, want, show(loc), show(b[1])))
    for (cls, name), hs in have.items():
        if (cls, name) in seen or name.startswith("__"):
            continue
        for k, args, f in hs:
            if k == "value":
                e = args[0]
                got = e[1].rsplit("::", 1)[-1] if isinstance(e, list) and e[0] == "enum" else None
                ctx.check(got in (None, name), "%s.%s" % (cls, name), "%s:%d" % (f["file"], f["line"]), "Python name %s denotes C++ enumerator %s" % (name, got))
    # PlannerSetting.set(parameter, value): writes the member of exactly that parameter
    from checks.settings import table, scope, family
    ps = "momentumopt::PlannerSetting"
    fams = {}
    for k, args, f in have.get((ps, "set"), []):
        g = callee(prog, args[0])
        if g is None or isinstance(g, tuple) or len(g["params"]) != 3:
            ctx.undecided(ps + ".set", "%s:%d" % (f["file"], f["line"]), "bound through a lambda or helper")
            fams[None] = 1
            continue
        fam = family(g["params"][1])
        fams[fam] = 1
        tab = table(prog, ps, fam)
        for c in prog.enum(fam)["consts"]:
            S = Summ(prog, inline=inl2(inl))
            fx = [e for e in S.run(g, {g["params"][0][0]: THIS, g["params"][1][0]: mk("enum", scope(fam) + "::" + c[0]), g["params"][2][0]: mk("sym", "v")}) if e.kind == "set"]
            oid = ps + ".set " + c[0]
            where = "%s:%d" % (g["file"], g["line"])
            locs = {l for _, l in tab.get(c[0], [])}
            if S.unknown or not locs:
                ctx.undecided(oid, where, "not summarised %s" % S.unknown[:2])
                continue
            ok = len(fx) == 1 and fx[0].guard == T and fx[0].target in locs and fx[0].value is mk("sym", "v")
            ctx.check(ok, oid, where, "setting %s stores %s, reading it returns %s" % (c[0], [(show(e.target), show(e.value)) for e in fx], [show(l) for l in locs]))
    if None not in fams:
        for fam in ("Int", "Bool", "Double", "String", "Vector", "CVector"):
            ctx.check("momentumopt::Planner%sParam" % fam in fams, ps + ".set family " + fam, ps, "no Python setter for %s parameters" % fam)
    # quaternion property: (x, y, z, w) both ways
    rp = "momentumopt::RobotPosture"
    g = [f for f in prog.byqual.get(rp + "::pyBaseOrientation", []) if not f["params"]]
    s = [f for f in prog.byqual.get(rp + "::pyBaseOrientation", []) if len(f["params"]) == 1]
    q = [f for f in prog.byqual.get(rp + "::baseOrientation", []) if not f["params"]]
    if g and s and q:
        S1, S2 = Summ(prog), Summ(prog)
        base = quantity(prog, q[0], inl)
        S1.run(g[0], {})
        fx = [e for e in S2.run(s[0], {s[0]["params"][0][0]: mk("sym", "v")}) if e.kind == "set"]
        ctx.fn(g[0]["key"], s[0]["key"])
        ctx.data = (S1.retval, fx)
        if S1.retval is None or S1.unknown or S2.unknown or base is None:
            ctx.undecided("quaternion order", g[0]["file"], "not summarised")
        else:
            # substitute what the setter stored into what the getter reads
            r = S1.retval
            comps = {}
            for e in fx:
                comps[e.target] = e.value
            ctx.check(quat_roundtrip(r, comps, base[1]), "quaternion order", "%s:%d" % (s[0]["file"], s[0]["line"]),
                      "reading the base orientation back does not return the stored (x,y,z,w): getter %s, setter stores %s" % (show(r), [(show(a), show(b)) for a, b in comps.items()]))
    else:
        raise AnalysisBroken("base orientation accessors of RobotPosture not found")


def quat_roundtrip(r, comps, loc):
    """the getter reads (x,y,z,w) = (q[0],q[1],q[2],q[3]); the setter builds quat(w,x,y,z)"""
    from kda.summ import index
    v = mk("sym", "v")
    want = [index(v, (num(i),)) for i in range(4)]
    q = comps.get(loc)
    if q is not None and q.op == "quat":
        w, x, y, z = q.args
        comp = {index(loc, (num(0),)): x, index(loc, (num(1),)): y, index(loc, (num(2),)): z, index(loc, (num(3),)): w}
    else:
        comp = dict(comps)
    out = subst(r, lambda t: comp.get(t))
    if out.op != "vec":
        return False
    return list(out.args) == want or (len(out.args) == 1 and list(out.args[0]) == want)
