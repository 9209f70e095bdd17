"""Settings: accessor agreement, configuration keys, shipped configuration files."""
import re
from kda import cxx
from kda.core import AnalysisBroken
from kda.nf import *
from kda.summ import Summ, THIS, Giveup, strcat

# (setting class, information class or None, parameter families)
CLASSES = [
    ("solver::SolverSetting", "solver::OptimizationInfo", ["solver::SolverIntParam", "solver::SolverBoolParam", "solver::SolverDoubleParam"]),
    ("momentumopt::PlannerSetting", None, ["momentumopt::PlannerIntParam", "momentumopt::PlannerBoolParam", "momentumopt::PlannerDoubleParam",
                                           "momentumopt::PlannerStringParam", "momentumopt::PlannerVectorParam", "momentumopt::PlannerIntVectorParam",
                                           "momentumopt::PlannerArrayParam", "momentumopt::PlannerCVectorParam"]),
    ("solverlqr::SolverLqrSetting", "solverlqr::LqrOptimizationInfo", ["solverlqr::SolverLqrIntParam", "solverlqr::SolverLqrBoolParam", "solverlqr::SolverLqrDoubleParam",
                                                                      "solverlqr::SolverLqrStringParam", "solverlqr::SolverLqrVectorParam", "solverlqr::SolverLqrYamlParam"]),
    ("solver::Var", None, ["solver::SolverIntParam", "solver::SolverDoubleParam"]),
]
# two names documented for the same quantity (robot mass times gravity)
SAME = {frozenset({"PlannerDoubleParam_RobotWeight", "PlannerDoubleParam_MassTimesGravity"})}


def family(p):
    """parameter type of an accessor"""
    return re.sub(r"^const | &$|&$", "", p[4]).strip()


def accessors(prog, cls):
    out = {}
    for name in ("get", "set"):
        for f in prog.byqual.get(cls + "::" + name, []):
            out.setdefault((name, family(f["params"][0])), []).append(f)
    return out


def run1(prog, f, args):
    S = Summ(prog)
    fx = S.run(f, args)
    return S, fx


def lookup(prog, f, enumq):
    """(location read, throws?)"""
    p = f["params"][0][0]
    S, fx = run1(prog, f, {p: mk("enum", enumq)})
    thr = [e for e in fx if e.kind == "throw" and e.guard == T]
    return S.retval, thr, fx, S.unknown


def scope(q):
    return q.rsplit("::", 1)[0]


def table(prog, cls, fam):
    """enumerator -> location, from the (const) getter"""
    r = {}
    acc = accessors(prog, cls).get(("get", fam), [])
    for f in acc:
        for c in prog.enum(fam)["consts"]:
            loc, thr, fx, unk = lookup(prog, f, scope(fam) + "::" + c[0])
            if loc is not None and not thr:
                r.setdefault(c[0], []).append((f, loc))
    return r


def accessors_check(ctx):
    ctx.rule("for every enumerator of every parameter family: each getter overload returns one member, all overloads the same member, the setter writes exactly that member with the given value, "
             "no enumerator falls into the rejecting default, and two enumerators never share a member")
    prog = cxx.load("SolverSetting", "PlannerSetting", "SolverLqrSetting", "CvxInfoPrinter", "LqrInfoPrinter", "Var.cpp")
    ctx.unit(*prog.units)
    for cls, info, fams in CLASSES:
        for fam in fams:
            consts = [c[0] for c in prog.enum(fam)["consts"]]
            owners = {}
            for owner in [cls] + ([info] if info else []):
                acc = accessors(prog, owner)
                gets = acc.get(("get", fam), [])
                sets = acc.get(("set", fam), [])
                if owner == cls and not gets:
                    raise AnalysisBroken("no getter of %s for %s" % (cls, fam))
                if not gets:
                    continue
                ctx.fn(*[f["key"] for f in gets + sets])
                for c in consts:
                    en = scope(fam) + "::" + c
                    locs = []
                    for f in gets:
                        oid = "%s:%s:%s" % (owner.split("::")[1], c, "get const" if f["const"] else "get")
                        loc, thr, fx, unk = lookup(prog, f, en)
                        if unk:
                            ctx.undecided(oid, "%s:%d" % (f["file"], f["line"]), str(unk[:2]))
                            continue
                        locs.append((f, loc if not thr else None, thr, fx))
                    have = [x for x in locs if x[1] is not None]
                    if not have:
                        continue
                    owners.setdefault(c, []).append(owner)
                    base = have[0][1]
                    for f, loc, thr, fx in locs:
                        oid = "%s:%s:%s" % (owner.split("::")[1], c, "get const" if f["const"] else "get")
                        w = "%s:%d (%s)" % (f["file"], thr[0].line if thr else f["line"], f["key"])
                        if loc is None:
                            ctx.bad(oid, w, "%s is accepted by one overload and rejected by this one" % c)
                        elif loc.op not in ("f", "i"):
                            ctx.bad(oid, w, "%s: the getter returns %s, not a stored member" % (c, show(loc)))
                        elif loc is not base:
                            ctx.bad(oid, w, "%s: overloads disagree, %s here and %s elsewhere" % (c, show(loc), show(base)))
                        elif any(e.kind in ("set", "push") for e in fx):
                            ctx.bad(oid, w, "%s: reading the setting changes the object: %r" % (c, fx[0]))
                        else:
                            ctx.ok(oid)
                    for f in sets:
                        oid = "%s:%s:set" % (owner.split("::")[1], c)
                        ps = f["params"]
                        val = mk("sym", "value#")
                        S, fx = run1(prog, f, {ps[0][0]: mk("enum", en), ps[1][0]: val})
                        w = "%s:%d (%s)" % (f["file"], f["line"], f["key"])
                        if S.unknown:
                            ctx.undecided(oid, w, str(S.unknown[:2]))
                            continue
                        wr = [e for e in fx if e.kind == "set"]
                        thr = [e for e in fx if e.kind == "throw"]
                        if thr:
                            ctx.bad(oid, w, "%s can be read but the setter rejects it" % c)
                        elif len({e.target for e in wr}) != 1 or wr[-1].target is not base or wr[-1].value is not val or wr[-1].guard != T:
                            ctx.bad(oid, w, "%s: the setter does %s, the getter reads %s" % (c, "; ".join(map(repr, wr)) or "nothing", show(base)))
                        else:
                            ctx.ok(oid)
                # distinctness
                seen = {}
                for c, l in ((c, x) for c in consts for x in [lookup(prog, gets[0], scope(fam) + "::" + c)] if x[0] is not None and not x[1]):
                    o = seen.setdefault(l[0], c)
                    oid = "%s:%s:distinct" % (owner.split("::")[1], c)
                    if o != c and frozenset({o, c}) not in SAME:
                        ctx.bad(oid, "%s:%d" % (gets[0]["file"], gets[0]["line"]), "%s and %s name the same member %s" % (o, c, show(l[0])))
                    else:
                        ctx.ok(oid)
            for c in consts:
                oid = "%s:%s:total" % (cls.split("::")[1], c)
                ow = owners.get(c, [])
                if (c in UNSERVED) != (cls == "solver::Var"):
                    continue
                ctx.check(len(ow) == 1, oid, fam, "%s is served by %s" % (c, ", ".join(ow) or "no accessor"))


# quantities of a single decision variable, served by the variable and not by the settings
UNSERVED = {"SolverIntParam_ColNum", "SolverDoubleParam_X", "SolverDoubleParam_LB", "SolverDoubleParam_UB", "SolverDoubleParam_Guess"}


# ------------------------------------------------------------------ configuration files
def config_rows():
    import os
    rows = []
    for ln in open(os.path.join(cxx.VERIF, "spec", "config_keys.txt")):
        if ln.strip() and not ln.startswith("#"):
            rows.append(ln.split())
    return rows


def noexc(x):
    """the run in which nothing throws"""
    m = lambda t: boolt(F) if t.op == "exc" else None
    if isinstance(x, Term):
        return subst(x, lambda t: boolt(fsubst(t.args[0], m)) if t.op == "b" else (ite(fsubst(t.args[0], m), noexc(t.args[1]), noexc(t.args[2])) if t.op == "ite" else None))
    return fsubst(x, m)


def config_check(ctx):
    from kda.libs import YAML
    from kda.facts import facts, FUZZY, ops_of
    ctx.rule("the guarded-store summary of every settings loader is compared, per parameter, with the published key table (spec/config_keys.txt): value stored = the entry under that key of the requested section of the requested file, "
             "stored exactly under the condition that makes the parameter applicable; derived parameters equal their defining formula; via point lists are emptied and refilled in order")
    ctx.rule("every planner configuration shipped in the package contains every key its own switches make mandatory")
    prog = cxx.load("SolverSetting", "PlannerSetting", "SolverLqrSetting", "CvxInfoPrinter", "LqrInfoPrinter", "Var.cpp")
    ctx.unit(*prog.units)
    rows = config_rows()
    for cls, info, fams in CLASSES[:3]:
        f = prog.one(cls + "::initialize")
        ctx.fn(f["key"])
        file, sect = mk("sym", "file#"), mk("sym", "section#")
        S = Summ(prog, handlers=YAML)
        fx = S.run(f, {f["params"][0][0]: file, f["params"][1][0]: sect})
        fa = facts(fx)
        root = mk("cfg", mk("cfgfile", file), sect)
        K = lambda k: mk("cfg", root, mk("str", k))
        loc = {}
        for fam in fams:
            if accessors(prog, cls).get(("get", fam)):
                for c, l in table(prog, cls, fam).items():
                    loc[c] = l[0][1]
        kin, sec = truth(K("load_kinematics")), truth(K("use_second_order_inv_kin"))
        tim = eq(K("heuristic"), mk("str", "TimeOptimization"))
        cond = {"always": T, "kin": kin, "first": band(kin, bnot(sec)), "second": band(kin, sec), "time": tim, "limits": truth(K("has_control_limits"))}
        sets = {}
        lists = {}
        for x in fa.values():
            t = noexc(x.target) if x.target is not None else None
            g = bcanon(noexc(x.guard))
            v = noexc(x.value) if x.value is not None else None
            lp = tuple(noexc(d) for d in x.loops)
            if g != F:
                sets.setdefault(t, []).append((x.kind, v, g, lp, x))

        def want(oid, l, value, g, loops=(), kind="set", simp=None):
            c = [y for y in sets.get(l, []) if y[0] == kind and len(y[3]) == len(loops)]
            if not c:
                fz = any(ops_of(y.value, y.target, y.guard) & FUZZY for y in fa.values()) or S.unknown
                (ctx.undecided if fz else ctx.bad)(oid, "%s:%d" % (f["file"], f["line"]), "%s is never loaded (expected %s)" % (show(l), show(value)))
                return
            k, v, gg, lp, x = c[-1]
            g2 = bcanon(g)
            if ops_of(v, gg, lp) & FUZZY:
                ctx.undecided(oid, x.where(), repr(x)[:200])
                return
            from kda.facts import restrict
            vr, er = restrict(v, g2), restrict(value, g2)
            # the expression may branch on switches that the condition decides
            okl = all(restrict(a, g2) is restrict(b, g2) for a, b in zip(lp, loops))
            ctx.check(vr is er and gg == g2 and okl, oid, x.where(), "%s: loaded as %s under [%s]%s; documented: %s under [%s]%s" % (
                show(l), show(vr)[:300], fshow(gg)[:200], " for %s entries" % show(lp[0])[:100] if lp else "", show(er)[:300], fshow(g2)[:200], " for %s entries" % show(loops[0])[:100] if loops else ""))
        n = 0
        for c, key, grp in rows:
            if c in loc:
                n += 1
                want("%s:%s" % (cls.split("::")[1], c), loc[c], K(key), cond[grp])
        if not n:
            raise AnalysisBroken("no parameter of the key table belongs to " + cls)
        L0 = mk("L", 0)
        pre = cls.split("::")[1] + ":"
        if cls == "momentumopt::PlannerSetting":
            w = lambda nm, v, g=T, loops=(), kind="set", idx=None: want(pre + nm + ("" if idx is None else "[%s]" % show(idx)) + ("" if kind == "set" else "/" + kind), loc[nm] if idx is None else index_(loc[nm], idx), v, g, loops, kind)
            w("PlannerStringParam_ConfigFile", file)
            w("PlannerDoubleParam_RobotWeight", mul(K("robot_mass"), K("gravity")))
            w("PlannerVectorParam_GravityVector", mk("vec", (ZERO, ZERO, sub(ZERO, K("gravity")))))
            w("PlannerBoolParam_IsFrictionConeLinear", boolt(eq(K("friction_cone"), mk("str", "LinearCone"))))
            for i, e in enumerate(("rf", "lf", "rh", "lh")):
                w("PlannerArrayParam_EndeffectorOffset", K("eff_offset_" + e), idx=num(i))
                w("PlannerArrayParam_CenterOfPressureRange", K("cop_range_" + e), idx=num(i))
            for nm, key, n_, g in (("PlannerCVectorParam_Viapoints", "com_viapoints", "num_com_viapoints", T), ("PlannerCVectorParam_JointViapoints", "joint_viapoints", "num_joint_viapoints", cond["first"]),
                                   ("PlannerCVectorParam_BaseViapoints", "base_viapoints", "num_base_viapoints", cond["first"]), ("PlannerCVectorParam_JointViapoints_Second", "joint_viapoints_second", "num_joint_viapoints_second", cond["second"]),
                                   ("PlannerCVectorParam_BaseViapoints_Second", "base_viapoints_second", "num_base_viapoints_second", cond["second"])):
                w(nm, mk("cfg", K(key), strcat(mk("str", "via"), mk("tostr", L0))), g, (K(n_),), idx=L0)
                cl = [y for y in sets.get(loc[nm], []) if y[0] in ("clear",) or (y[0] == "set" and y[1].op in ("list", "ctor"))]
                ps = [y for y in sets.get(loc[nm], []) if y[0] == "push"]
                oid = pre + nm + "/fresh"
                if ps and not cl:
                    ctx.bad(oid, ps[0][4].where(), "via points are appended to the list left over from an earlier load")
                elif ps:
                    ctx.check(beq(cl[0][2], bcanon(g)), oid, cl[0][4].where(), "the list is emptied under [%s], refilled under [%s]" % (fshow(cl[0][2]), fshow(g)))
                else:
                    ctx.undecided(oid, "", "no append found")
            it = lambda t: boolt(t)
            want(pre + "PlannerIntParam_NumTimesteps", loc["PlannerIntParam_NumTimesteps"], None or sets_value(sets, loc["PlannerIntParam_NumTimesteps"], mul(K("time_horizon"), power(K("time_step"), num(-1)))), T)
            # heuristic names
            hl = [t for t in sets if t.op == "f" and any(y[1] is not None and any(z.op == "enum" for z in subterms(y[1])) for y in sets[t])]
            ctx.need(len(hl) == 1, "heuristic selection not found")
            k, v, gg, lp, x = sets[hl[0]][-1]
            for nm in ("TrustRegion", "SoftConstraint", "TimeOptimization"):
                r = restrict_to(v, eq(K("heuristic"), mk("str", nm)), [eq(K("heuristic"), mk("str", o)) for o in ("TrustRegion", "SoftConstraint", "TimeOptimization") if o != nm])
                ctx.check(r.op == "enum" and r.args[0].endswith("::" + nm), pre + "heuristic/" + nm, x.where(), "the name %s selects %s" % (nm, show(r)))
            ea = loc["PlannerIntVectorParam_ExtendedActiveDofs"]
            for i in range(6):
                want(pre + "ExtendedActiveDofs[%d]" % i, index_(ea, num(i)), num(i), kin)
            act = loc["PlannerIntVectorParam_ActiveDofs"]
            want(pre + "ExtendedActiveDofs[6+i]", index_(ea, add(num(6), L0)), add(num(6), index_(K("active_dofs"), L0)), kin, (mk("len", K("active_dofs")),))
            want(pre + "PlannerIntParam_NumActiveDofs", loc["PlannerIntParam_NumActiveDofs"], ite(kin, mk("len", K("active_dofs")), mk("len", act)), T)
            ne = sets.get(loc["PlannerIntParam_NumExtendedActiveDofs"], [])
            if not (ne and ne[-1][1] is mk("len", ea) and ne[-1][2] == T):
                want(pre + "PlannerIntParam_NumExtendedActiveDofs", loc["PlannerIntParam_NumExtendedActiveDofs"], ite(kin, add(num(6), mk("len", K("active_dofs"))), mk("len", ea)), T)
            else:
                ctx.ok(pre + "PlannerIntParam_NumExtendedActiveDofs")
            fn = mk("substr", file, ZERO, sub(mk("c", "std::basic_string::size", file, ()), num(5)))
            for nm, suf in (("PlannerStringParam_SaveKinematicsFile", "_kin_results.yaml"), ("PlannerStringParam_SaveDynamicsFile", "_dyn_results.yaml")):
                y = [y for y in sets.get(loc[nm], []) if y[0] == "set"]
                ok = bool(y) and all(any(z.op == "str" and z.args[0].endswith(suf) for z in subterms(q[1])) and any(z is file for z in subterms(q[1])) for q in y)
                ctx.check(ok, pre + nm, y[-1][4].where() if y else "%s:%d" % (f["file"], f["line"]), "results file is %s, expected one derived from the configuration file name with suffix %s" % (show(y[-1][1]) if y else "never set", suf))
        if cls == "solverlqr::SolverLqrSetting":
            want(pre + "LineSearchCoeffs", index_(loc["SolverLqrVectorParam_LineSearchCoeffs"], L0), power(K("linesearch_coeff"), sub(ZERO, mul(L0, L0))), T, (K("linesearch_num_coeffs"),))
            want(pre + "UserParameters", loc["SolverLqrYamlParam_UserParameters"], K("user_parameters"), T)
            want(pre + "TimeDimension", loc["SolverLqrIntParam_TimeDimension"], sets_value(sets, loc["SolverLqrIntParam_TimeDimension"], mul(K("time_horizon"), power(K("time_step"), num(-1)))), T)
    shipped(ctx, rows)


def index_(base, i):
    from kda.summ import index
    return index(base, (i,))


def sets_value(sets, l, inner):
    """floor of inner, whichever way the truncation is spelled"""
    for y in sets.get(l, []):
        v = y[1]
        u = v
        while u.op == "floor" or (u.op == "fun" and u.args[0] == "floorf"):
            u = u.args[0] if u.op == "floor" else (u.args[1][0] if isinstance(u.args[1], tuple) else u.args[1])
        if u is inner and u is not v:
            return v
    return mk("floor", inner)


def restrict_to(v, pos, negs):
    from kda.facts import restrict
    g = band(pos, *[bnot(n) for n in negs])
    return restrict(v, g)


def shipped(ctx, rows):
    import glob, yaml
    planner = [r for r in rows if r[0].startswith("Planner")]
    for p in sorted(glob.glob(cxx.REPO + "/*/config/*.yaml")):
        rel = p[len(cxx.REPO) + 1:]
        try:
            d = yaml.safe_load(open(p))
        except Exception as e:
            ctx.bad("config:%s" % rel, rel, "not readable: %s" % str(e).replace("\n", " ")[:200])
            continue
        for s, v in d.items():
            if s == "solver_variables":
                for c, key, grp in rows:
                    if not c.startswith(("Planner", "SolverLqr")):
                        ctx.check(key in v, "config:%s:%s:%s" % (rel, s, key), rel, "mandatory key %s is missing from section %s" % (key, s))
            if s != "planner_variables":
                continue
            kin = bool(v.get("load_kinematics"))
            on = {"always": True, "kin": kin, "first": kin and not v.get("use_second_order_inv_kin"), "second": kin and bool(v.get("use_second_order_inv_kin")), "time": v.get("heuristic") == "TimeOptimization"}
            for c, key, grp in planner:
                if on[grp]:
                    ctx.check(key in v, "config:%s:%s:%s" % (rel, s, key), rel, "mandatory key %s is missing from section %s" % (key, s))
            for key in ["friction_cone", "heuristic"] + ["cop_range_" + e for e in ("rf", "lf", "rh", "lh")] + ["eff_offset_" + e for e in ("rf", "lf", "rh", "lh")]:
                ctx.check(key in v, "config:%s:%s:%s" % (rel, s, key), rel, "mandatory key %s is missing from section %s" % (key, s))
            for nk, lk in (("num_com_viapoints", "com_viapoints"),) + ((("num_joint_viapoints", "joint_viapoints"), ("num_base_viapoints", "base_viapoints")) if on["first"] else (("num_joint_viapoints_second", "joint_viapoints_second"), ("num_base_viapoints_second", "base_viapoints_second")) if on["second"] else ()):
                for i in range(int(v.get(nk) or 0)):
                    ctx.check(isinstance(v.get(lk), dict) and "via%d" % i in v[lk], "config:%s:%s:%s.via%d" % (rel, s, lk, i), rel, "%s announces %s via points, entry via%d is missing" % (nk, v.get(nk), i))
