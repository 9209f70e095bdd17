"""Formulation of the centroidal dynamics optimisation (E01...)"""
from kda import libs, ref
from kda import nf
from kda.nf import *
from kda.nf import REBUILD
from kda.summ import Summ, THIS, is_local


def even(op):
    """a function that is the same for an expression and for its negative"""
    def f(e):
        if op == "sq" and is_num(e):
            return mul(e, e)
        if e.op == "ite":
            return ite(e.args[0], f(e.args[1]), f(e.args[2]))
        if e.op == "+":
            t = next((m[0][0] for m, c in e.args[0] if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ite"), None)
            if t is not None:
                return ite(t.args[0], f(subst(e, lambda x: t.args[1] if x is t else None)), f(subst(e, lambda x: t.args[2] if x is t else None)))
        n = neg(e)
        return mk(op, min(e, n, key=lambda t: t.dig))
    REBUILD[op] = f
    return f


sq = even("sq")
zero = even("zero")


def model_summ(prog, opaque=(), objlocal=False, **kw):
    """affine and quadratic expressions over the decision variables, as elements of the polynomial ring (the classes themselves are property B02's)"""
    def OBJ(self, l):
        """the objective is kept as the set of its terms, whatever the order in which they are added"""
        return l.op == "f" and l.args[1] in ("quad_objective_", "quad_expr_") or objlocal and l.op == "l"

    def entry(self, x):
        """the entry of the vector of variables behind an expression of type Var"""
        l = self.deref(self.loc(x))
        return self.read(l) if is_local(l) else l

    def ctor(self, e, qs):
        if not e[2]:
            return ZERO
        a = e[2][0]
        if isinstance(a, list) and "solver::Var" in str(e[4]):
            return mul(mk("dv", entry(self, a)), *[self.val(x) for x in e[2][1:2]])
        return mul(*[self.val(x) for x in e[2][:2]])

    def copyvar(self, e, qs):
        return entry(self, e[2][0]) if e[2] else mk("newvar")

    def quad_ctor(self, e, qs):
        if objlocal and not e[2]:
            emit(self, "clearObjective", (), e[4] if isinstance(e[4], int) else 0)
            return ZERO
        return self.val(e[2][0]) if e[2] else ZERO

    def clear(self, e, qs):
        l = self.loc(e[2])
        if OBJ(self, l):
            return emit(self, "clearObjective", (), e[6])
        self.write(l, ZERO, e[6])
        return mk("none")

    def qterm(self, e, qs):
        l = self.loc(e[2])
        w = self.val(e[3][0])
        x = self.val(e[3][1])
        if OBJ(self, l):
            return emit(self, "objective", (mul(w, sq(x)),), e[6])
        self.write(l, add(self.read(l), mul(w, sq(x))), e[6])
        return mk("none")

    def lterm(self, e, qs):
        if OBJ(self, self.loc(e[2])):
            return emit(self, "objective", (self.val(e[3][0]),), e[6])
        return NotImplemented

    def emit(self, kind, args, line):
        self.emit("call", None, mk("c", kind, mk("none"), tuple(args)), line)
        return mk("none")

    def lincon(self, e, qs):
        a, s, b = self.val(e[3][0]), self.val(e[3][1]), self.val(e[3][2])
        d = sub(a, b)
        if s.op == "str" and s.args[0] == "=":
            return emit(self, "equality", (zero(d),), e[6])
        if s.op == "str" and s.args[0] in "<>":
            return emit(self, "atmost", (d if s.args[0] == "<" else neg(d), ZERO), e[6])
        return emit(self, "linear", (d, s), e[6])

    def qcon(kind):
        def f(self, e, qs):
            vs = [self.val(a) for a in e[3]]
            if kind == "quadratic" and len(vs) == 3:
                vs.append(mk("enum?"))
            return emit(self, kind, vs, e[6])
        return f

    def objective(self, e, qs):
        l = self.loc(e[3][0])
        if not OBJ(self, l):
            self.unknown.append((self.file, e[6], "objective assembled elsewhere"))
        return emit(self, "setObjective", (self.val(e[3][1]),), e[6])

    def model_call(name):
        def f(self, e, qs):
            t = mk("c", name, mk("none"), tuple(self.val(a) for a in e[3]))
            self.emit("call", None, t, e[6])
            return t
        return f

    def ident(self, e, qs):
        # index of an entry of a block of variables (OptimizationVariable::id is a function of its own)
        return mk("c", "id", mk("none"), (self.deref(self.loc(e[2])),) + tuple(self.val(a) for a in e[3]))

    S = Summ(prog, arith=("solver::LinExpr",), opaque=lambda q, key: q in opaque or q.startswith("solver::Model::"), handlers={
        "solver::LinExpr::ctor": ctor, "solver::Var::ctor": copyvar, "solver::DCPQuadExpr::ctor": quad_ctor, "solver::DCPQuadExpr::clear": clear,
        "solver::DCPQuadExpr::addQuaTerm": qterm, "solver::DCPQuadExpr::addLinTerm": lterm, "solver::Model::addLinConstr": lincon, "solver::Model::addSocConstr": qcon("cone"),
        "solver::Model::addQuaConstr": qcon("quadratic"), "solver::Model::setObjective": objective,
        "solver::OptimizationVariable::id": ident, **{"solver::Model::" + n: model_call("model." + n) for n in ("optimize", "clean", "addVar", "configSetting")}}, **dict({"modsets": True}, **kw))
    return S


DYN = "momentumopt::DynamicsOptimizer::"
OPAQUE = {DYN + n for n in ("addVariableToModel", "saveSolution", "storeSolution", "initializeOptimizationVariables", "updateTrackingObjective", "internalOptimize", "saveToFile")}


SCRATCH = {"lin_cons_", "quad_cons_", "quad_objective_", "quad_expr_", "lin_expr_"}


def seen(e):
    """effects outside the optimiser's scratch expressions"""
    t = e.target
    while t is not None and t.op in ("f", "i"):
        if t.op == "f" and t.args[1] in SCRATCH:
            return False
        t = t.args[0]
    return ref.public(e)


def label(e):
    return e.value.args[0] if e.kind == "call" and e.value is not None and e.value.op == "c" and isinstance(e.value.args[0], str) else None


EQ = {"equality"}
INEQ = {"atmost", "cone", "quadratic", "linear"}
COST = {"objective", "clearObjective", "setObjective"}


def run(ctx, want, only=None):
    ref.check_file(ctx, "dynopt.cpp", ["momentumopt/", "solver/"], mk_summ=lambda p: model_summ(p, OPAQUE), want=lambda e: seen(e) and want(label(e)), only=only or (lambda q: "FrictionCone::" not in q))


ONE_FN = lambda q: q.startswith(DYN + "internalOptimize")


def eq_check(ctx):
    ctx.rule("the equality constraints added to the model, as polynomials in the decision variables with the condition and loops under which each is added, are those of the discretised dynamics in spec/dynopt.cpp")
    run(ctx, lambda l: l in EQ, lambda q: ONE_FN(q) or "::contact" in q)


def lookups_check(ctx):
    """the contact of an end effector exists only while the end effector is in contact"""
    from kda import cxx
    ctx.rule("every look-up of the contact of an end effector at a time step is reached only when the end effector is active at that time step")
    prog = cxx.load("momentumopt/", "solver/")
    names = tuple(DYN + n for n in ("contactType", "contactRotation", "contactLocation"))
    for fn in sorted((f for f in prog.fns.values() if f["qual"].startswith(DYN) and f["qual"] not in names and f.get("body")), key=lambda f: f["line"]):
        if not any(n in repr(fn["body"]) for n in names):
            continue
        found = []

        def look(self, e, qs):
            if not self.dry:
                found.append((e[6], self.val(e[3][0]), self.val(e[3][1]), self.guard()))
            return mk("c", qs, mk("none"), tuple(self.val(a) for a in e[3]))

        S = model_summ(prog, OPAQUE)
        S.handlers = {**S.handlers, **{n: look for n in names}}
        S.run(fn, {p[0]: mk("sym", "p%d" % i) for i, p in enumerate(fn["params"])})
        ctx.functions.add(fn["qual"])
        for line, t, e, g in found:
            oid = "%s: contact looked up at %s, %s" % (fn["qual"].split("::")[-1], nf.show(t), nf.show(e))
            act = []
            for a in bsupport(g):
                x = a.args[0] if a.op == "tr" else a
                if x.op == "i" and x.args[0].op == "f" and x.args[0].args[1] == "eff_activations_" and x.args[1] == (e,):
                    x = x.args[0].args[0]
                    if x.op == "i" and x.args[1] == (t,):
                        act.append(a)
            ctx.check(any(band(g, bnot(bvar(a))) == F for a in act), oid, "%s:%s" % (fn["file"], line), "the contact of an end effector is looked up where the end effector need not be in contact (the index is then -1)")


def quarter(t):
    """sine and cosine of a right angle"""
    if t.op == "fun" and t.args[0] in ("cos", "sin") and len(t.args[1]) == 1 and is_num(t.args[1][0]) and abs(float(t.args[1][0].args[0]) - 1.5707963267948966) < 1e-12:
        return ZERO if t.args[0] == "cos" else num(1)
    return None


def pyramid_check(ctx):
    ctx.rule("the facets of the linearised friction cone are those of spec/dynopt.cpp")
    ref.check_file(ctx, "dynopt.cpp", ["momentumopt/", "solver/"], mk_summ=lambda p: Summ(p, unroll=4), only=lambda q: "FrictionCone::" in q, rules=quarter)


def ineq_check(ctx):
    lookups_check(ctx)
    pyramid_check(ctx)
    ctx.rule("the inequality, cone and quadratic constraints added to the model are those of the contact and reach limits in spec/dynopt.cpp, under the same conditions")
    run(ctx, lambda l: l in INEQ, lambda q: ONE_FN(q) or "::contact" in q or q == DYN + "initialize")


def cost_check(ctx):
    ctx.rule("the weighted squares added to the objective are those of the cost terms in spec/dynopt.cpp, under the same conditions, each as often")
    run(ctx, lambda l: l in COST, ONE_FN)


def result_check(ctx):
    ctx.rule("everything else the optimiser does (variables, bounds and guesses registered with the model, solution read back, states stored, convergence tests, repetitions) is what spec/dynopt.cpp does")
    run(ctx, lambda l: l not in EQ | INEQ | COST)


def dynopt_check(ctx):
    run(ctx, lambda l: True)


# ------------------------------------------------------------------------------------------------ contact plan
CNT = ("ContactSequence::loadFromFile", "ViapointSequence::loadFromFile", "findMakeContactId", "findBreakContactId", "mapIdToContactTime", "findActiveViapoints", "generateFlightPhase",
       "TrajectoryGenerator::initialize", "TrajectoryGenerator::update", "ContactState::ContactState", "idToEndeffectorString", "ViapointState::ViapointState", "idToContactType", "YAML::ReadParameter", "YAML::LoadFile")


def contact_summ(prog):
    return Summ(prog, opaque=lambda q, key: any(q.endswith(x) for x in CNT), ignore=lambda q: "operator<<" in q, modsets=True, unroll=0)


def no_exception(t):
    """files are readable: the error paths only print"""
    return boolt(F) if t.op == "exc" else None


def contact_check(ctx):
    ctx.rule("loading the contact plan, assigning contacts to time steps and building flight phases have exactly the effects of the reference functions of spec/cntopt.cpp")
    ref.check_file(ctx, "cntopt.cpp", ["momentumopt/"], mk_summ=contact_summ, rules=no_exception)


# ------------------------------------------------------------------------------------------------ kinematics optimiser
KIN = "momentumopt::KinematicsOptimizer::"
KINOPAQUE = {KIN + n for n in ("addVariableToModel", "saveSolution", "storeSolution", "optimizePosture", "optimizeTrajectory", "displayMotion", "quaternionToRotationVector",
                               "initializeTrajectoryKinematicVariables", "initializePostureKinematicVariables")} | {"momentumopt::ContactPlanInterface::updateEndeffectorTrajectories", "momentumopt::KinematicsSequence::resize",
                               "solver::OptimizationVariable::initialize", "solver::OptimizationVariable::getValues", "solver::OptimizationVariable::setGuessValue"}


def kin_check(ctx, only=None):
    ctx.rule("the functions of the kinematics optimiser have exactly the effects of the reference functions of spec/kinoptc.cpp")
    ref.check_file(ctx, "kinoptc.cpp", ["momentumopt/", "solver/"], only=only, rules=no_exception, want=seen, mk_summ=lambda p: model_summ(p, KINOPAQUE, objlocal=True, modsets=False))


# ------------------------------------------------------------------------------------------------ result files
def files_check(ctx, only=None):
    ctx.rule("each function that writes a result file stores exactly the (key, value) pairs of the reference functions of spec/files.cpp, and writes the file")

    def emit(self, kind, args, line):
        self.emit("call", None, mk("c", kind, mk("none"), tuple(args)), line)
        return mk("none")

    def ctor(self, e, qs):
        return self.val(e[2][0]) if e[2] else mk("node")

    def assign(self, e, qs):
        return emit(self, "entry", (self.val(e[2]), self.val(e[3][0])), e[6])

    def open_(self, e, qs):
        return mk("file", *[self.val(a) for a in e[2][:1]])

    def dump(self, e, qs):
        v = self.val(e[3][1])
        if v.op not in ("node", "cfg"):
            return NotImplemented
        return emit(self, "dump", (self.val(e[3][0]), v), e[6])

    def guess(self, e, qs):
        l = self.loc(e[3][0])
        self.write(l, mk("guess", self.deref(self.loc(e[2]))), e[6])
        return mk("none")

    def mk_summ(p):
        S = Summ(p, handlers=h, modsets=True)
        S.scratch = ("mat_guess_",)
        # the variables have one column per time step (E04)
        S.fullcols = lambda m, n: base(m).op == "guess" and n.op == "f" and n.args[1] == "num_timesteps_"
        return S

    def base(m):
        while m.op == "upd":
            m = m.args[0]
        return m

    h = {**libs.YAML, "solver::OptimizationVariable::getGuessValue": guess, "YAML::Node::ctor": ctor, "YAML::Node::operator=": assign, "std::basic_ofstream::ctor": open_, "YAML::operator<<": dump}
    ref.check_file(ctx, "files.cpp", ["momentumopt/", "solver/", "solver_lqr/"], only=only, rules=no_exception, mk_summ=mk_summ)


# ------------------------------------------------------------------------------------------------ utilities
UTIL = ("logarithmicMap", "exponentialMap", "skewMatrix", "toQuaternionMatrix", "jacobianQuaternionWrtRotationVector", "jacobianAngularVelocityWrtRotationVector",
        "toAngularVelocity", "fromAngularVelocity", "Interpolator::initialize", "Interpolator::interpolate")


def util_check(ctx, only=None):
    ref.check_file(ctx, "util.cpp", ["momentumopt/"], only=only, mk_summ=lambda p: Summ(p, opaque=lambda q, key: any(q.endswith("::" + x) for x in UTIL), modsets=True, unroll=0))


def orientation_check(ctx):
    ctx.rule("each orientation function returns the value of the reference function of spec/util.cpp, the functions it calls being checked on their own")
    util_check(ctx, lambda q: "Interpolator" not in q and "TrajectoryGenerator" not in q)


def trajectory_check(ctx):
    ctx.rule("the interpolation conditions, their polynomial and its derivatives are those of spec/util.cpp")
    util_check(ctx, lambda q: "Interpolator" in q or "TrajectoryGenerator" in q)


# ------------------------------------------------------------------------------------------------ fresh states
def at_rest(t):
    """zero vectors are written in several ways; files are readable"""
    if t.op == "vec" and t.args[0] and all(x is ZERO for x in t.args[0]):
        return ZERO
    return no_exception(t)


def states_check(ctx):
    ctx.rule("the constructors of states, postures and contacts and the resizing of sequences have exactly the effects of the reference functions of spec/states.cpp")
    ref.check_file(ctx, "states.cpp", ["momentumopt/"], rules=at_rest,
                   mk_summ=lambda p: Summ(p, opaque=lambda q, key: q == "momentumopt::KinematicsInterface::initialize", modsets=True, unroll=0))
