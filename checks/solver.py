"""Conic solver: cone algebra, expressions, model assembly, interior point method."""
from kda import cxx, ref
from kda.nf import *
from kda.summ import Summ, fieldof, THIS, index
from kda.facts import facts

# class invariant of Cone (established by Cone::initialize, which is itself compared with its reference without it)
CONE_DERIVED = {
    "lpconestart_": ["nvars_", "neq_"], "soconestart_": ["nvars_", "neq_", "nineq_"], "sizecone_": ["nineq_", "ssoc_"], "extssoc_": ["ssoc_", "nsoc_", "nsoc_"],
    "extsizecone_": ["nineq_", "ssoc_", "nsoc_", "nsoc_"], "sizeconstraints_": ["neq_", "nineq_", "ssoc_"], "sizeproblem_": ["nvars_", "neq_", "nineq_", "ssoc_"],
    "extsizeproblem_": ["nvars_", "neq_", "nineq_", "ssoc_", "nsoc_", "nsoc_"]}


def cone_rules(t):
    if t.op == "f" and t.args[1] in CONE_DERIVED:
        b = subst(t.args[0], cone_rules)
        return add(*[fieldof(b, n) for n in CONE_DERIVED[t.args[1]]])
    return None


VALUES = ["solver::ConicVector::operator" + o for o in "/*+-"] + ["solver::ConicVector::operator-/%d" % k for k in (0, 1)] + ["solver::ScalingOperator::operator*", "solver::OptimizationVector::operator+"]


def one_cone(t):
    """the operands of one operation belong to one cone"""
    if t.op == "f" and t.args[1] == "cone_":
        return fieldof(THIS, "$cone")
    if t.op == "f" and t.args[1] in CONE_DERIVED:
        return add(*[fieldof(subst(t.args[0], one_cone), n) for n in CONE_DERIVED[t.args[1]]])
    return None


def cone_check(ctx):
    ctx.rule("the normalised effects (stores, results, exit conditions) of each cone operation equal those of the blockwise textbook formula in spec/cone.cpp")
    ctx.rule("derived sizes and offsets of Cone are replaced by their defining sums; Cone::initialize is compared without that replacement")
    ref.check_file(ctx, "cone.cpp", ["solver/"], only=lambda o: "Cone::initialize" in o)
    ref.check_file(ctx, "cone.cpp", ["solver/"], only=lambda o: "Cone::initialize" not in o, rules=cone_rules, special={n: dict(nrvo=True, rules=one_cone, scalars=True) for n in VALUES})


# ------------------------------------------------------------------------------------------------ expressions
def term_rules(t):
    """coefficient and term lists of an expression have one length (they are only ever extended together)"""
    if t.op == "len" and t.args[0].op == "f" and t.args[0].args[1] in ("coeffs_", "vars_", "qexpr_"):
        return mk("len", fieldof(subst(t.args[0].args[0], term_rules), "$terms"))
    if t.op == "upd" and t.args[0].op == "f" and t.args[0].args[1] in ("coeffs_", "vars_", "qexpr_") and len(t.args[1]) == 1:
        # storing every entry of the list
        (idx, v), = t.args[1]
        n = subst(mk("len", t.args[0]), term_rules)
        if len(idx) == 1 and idx[0].op == "sl" and idx[0].args[0] is ZERO and subst(idx[0].args[1], term_rules) is n:
            return subst(v, term_rules)
    return None


def opaque_clean(prog):
    return Summ(prog, opaque=lambda q, key: q == "solver::LinExpr::clean")


def expr_summ(prog):
    """LinExpr and Var interpreted as elements of the vector space they denote"""
    def ctor(self, e, qs):
        vs = [self.val(a) for a in e[2]]
        if not vs:
            return ZERO
        return mul(*vs[:2])
    return Summ(prog, arith=("solver::LinExpr", "solver::Var"), handlers={"solver::LinExpr::ctor": ctor, "solver::Var::ctor": lambda self, e, qs: self.val(e[2][0])})


PRIMITIVE = ("operator*(double) const", "operator+=(const", "operator=(const", "operator*=(double)", "operator/=(double)")


def calls_in(x, out):
    if isinstance(x, list):
        if x and x[0] == "call" and len(x) > 5 and isinstance(x[5], str):
            out.add(x[5])
        for y in x:
            calls_in(y, out)
    return out


def operators_check(ctx, prog):
    ops = {}
    for k, f in prog.fns.items():
        q = f["qual"]
        if "operator" in q and "spec::" not in q and ("solver::LinExpr" in k or "solver::Var" in k) and "<<" not in q and "DCP" not in k:
            ops[k] = f
    graph = {k: {c for c in calls_in(f["body"], set()) if c in ops and not any(p in c for p in PRIMITIVE)} for k, f in ops.items()}
    for k, f in sorted(ops.items()):
        if any(p in k for p in PRIMITIVE):
            continue
        where = "%s:%d" % (f["file"].replace(cxx.REPO + "/", ""), f["line"])
        op = f["name"].replace("operator", "")
        member = f["qual"].startswith("solver::LinExpr::") and not f.get("static") and len(f["params"]) <= 1 and not (op in "+-" and f["qual"].count("::") == 1)
        S = expr_summ(prog)
        args = {p[0]: mk("sym", "p%d" % i) for i, p in enumerate(f["params"])}
        fx = S.run(f, args)
        got = S.retval
        ps = [mk("sym", "p%d" % i) for i in range(len(f["params"]))]
        from kda.summ import binop
        xs = ([THIS] if member else []) + ps
        if op in ("+=", "-=", "*=", "/="):
            want = binop(op[0], THIS, ps[0], "f")
            st = [e for e in fx if e.kind == "set" and e.target is THIS]
            val = st[-1].value if st else None
            ctx.fn(k)
            ctx.check(val is want and all(e.guard == T for e in st), k, where, "%s stores %s, required %s" % (k, show(val) if val is not None else None, show(want)))
            continue
        want = (neg(xs[0]) if op == "-" else xs[0]) if len(xs) == 1 else binop(op, xs[0], xs[1], "f")
        ctx.fn(k)
        pub = [e for e in fx if e.kind == "set" and e.target.op != "l" and not e.target.op == "sym"]
        ctx.check(got is want and not pub, k, where, "%s yields %s, required %s" % (k, show(got) if got is not None else None, show(want)))
        # recursion
        seen, todo = set(), set(graph[k])
        while todo:
            c = todo.pop()
            if c in seen:
                continue
            seen.add(c)
            todo |= graph[c]
        ctx.check(k not in seen, k + " terminates", where, "%s calls itself" % k)


def exprs_check(ctx):
    ctx.rule("every operator overload on Var, LinExpr and double returns (or stores) the algebraic result its symbol states, in the vector space of affine expressions")
    ctx.rule("the primitive operations (term list arithmetic, merging of equal variables, evaluation, quadratic terms) equal the reference functions of spec/exprs.cpp")
    ctx.rule("no operator is defined in terms of itself")
    prog = ref.check_file(ctx, "exprs.cpp", ["solver/"], mk_summ=opaque_clean, rules=term_rules, special={"solver::LinExpr::clean": dict(mk_summ=Summ, nrvo=True), "solver::LinExpr::operator*": dict(nrvo=True)})
    if prog is not None:
        operators_check(ctx, prog)
        self_operand_check(ctx, prog)


GROW = ("push_back", "emplace_back", "insert", "resize", "erase", "clear", "pop_back", "emplace")


def self_operand_check(ctx, prog):
    """an operand of the object's own type may be the object itself: no loop is governed by the operand's lists while its body resizes the object's lists"""
    ctx.rule("an operation stays correct when its operand is the object itself: no loop bounded by the operand's lists resizes the object's lists")

    def nodes(t):
        if isinstance(t, (list, tuple)):
            yield t
            for x in t:
                yield from nodes(x)
    for k, f in sorted(prog.fns.items()):
        c = f.get("cls")
        if c not in ("solver::LinExpr", "solver::DCPQuadExpr") or f.get("static") or f["file"].startswith(cxx.VERIF):
            continue
        own = {p[0] for p in f["params"] if c in p[4] and "&" in p[4]} or {p[0] for p in f["params"] if p[2] == "o:" + c}
        if not own:
            continue
        where = "%s:%d" % (f["file"].replace(cxx.REPO + "/", ""), f["line"])
        bad = None
        for n in nodes(f["body"]):
            if not n or n[0] not in ("for", "while", "do", "rfor"):
                continue
            head, body = (n[1:4], n[4:]) if n[0] == "for" else (n[1:3], n[2:])
            if n[0] == "for":
                head = n[2:3]
            uses = any(x[0] == "var" and len(x) > 3 and x[3] == "param" and x[1] in own for x in nodes(head) if x)
            grows = any(x[0] == "call" and x[1].split("::")[-1] in GROW and isinstance(x[2], list) and x[2] and x[2][0] == "fld" and x[2][1] == ["this"] for x in nodes(body) if x)
            if uses and grows:
                bad = n
        ctx.check(bad is None, k + " with itself as operand", where, "%s: a loop is bounded by the operand's lists while it resizes the object's own lists; with the object as its own operand it never ends" % k)


# ------------------------------------------------------------------------------------------------ conic problem
def storage_rules(t):
    """variables used in a model have been created by it; derived cone sizes are their defining sums"""
    if t.op in ("eq", "eqc") and any(x.op == "none" for x in t.args if not isinstance(x, int)) and any(x.op == "f" and x.args[1] == "var_storage_" for x in t.args if not isinstance(x, int)):
        return boolt(F)
    return cone_rules(t) or term_rules(t)


def problem_summ(prog):
    stop = ("::initialize", "SolverStorage::addCoeff", "SolverStorage::initializeMatrices", "SolverStorage::cleanCoeffs", "ConicProblem::addVar", "ConicProblem::buildProblem", "ConicProblem::solveProblem", "::optimize")
    return Summ(prog, opaque=lambda q, key: any(q.endswith(x) for x in stop) or "solver::LinExpr" in key and "operator" in q and not q.endswith("operator="))


API = ("addVar", "addLinConstr", "addQuaConstr", "addSocConstr", "setObjective", "clean", "solveProblem", "Model::optimize", "ConicProblem::optimize")


def problem_api_check(ctx):
    ctx.rule("adding variables and constraints, setting the objective, clearing and solving have exactly the effects of the reference functions of spec/problem.cpp")
    ref.check_file(ctx, "problem.cpp", ["solver/"], mk_summ=problem_summ, only=lambda o: any(o.endswith(x) for x in API), rules=storage_rules)
    ctx.rule("the model passes everything on to its problem, and variables read and write the named quantity (spec/model.cpp)")
    ref.check_file(ctx, "model.cpp", ["solver/"], mk_summ=lambda p: Summ(p, opaque=lambda q, key: q.startswith("solver::ConicProblem::")))


def problem_rows_check(ctx):
    ctx.rule("every coefficient, right-hand side and cost entry written by buildProblem is the one the standard-form reference in spec/problem.cpp assigns to that row and column, and nothing else is written")
    ref.check_file(ctx, "problem.cpp", ["solver/"], mk_summ=problem_summ, only=lambda o: not any(o.endswith(x) for x in API), rules=storage_rules)


# ------------------------------------------------------------------------------------------------ interior point method
def ipm_summ(prog):
    stop = ("LinSolver::matrixTransposeTimesVector", "CvxInfoPrinter::display", "LinSolver::solve", "numericFactorization", "initializeMatrix", "conicProjection", "internalInitialization", "setEquilibration",
            "LinSolver::initialize", "CvxInfoPrinter::initialize", "Vector::initialize", "InteriorPointSolver::initializeVariables", "InteriorPointSolver::convergenceCheck", "saveIterateAsBest", "restoreBestIterate", "EqRoutine::scaleVariables",
            "updateNTScalings", "updateMatrix", "conicResidual", "InteriorPointSolver::rhsAffineStep", "rhsCenteringPredictorStep", "computeResiduals", "updateStatistics", "OptimizationInfo::isBetterThan",
            "ConicVector::operator*", "ConicVector::operator/", "ConicVector::operator-", "ConicVector::operator+", "ScalingOperator::operator*", "InteriorPointSolver::lineSearch")
    return Summ(prog, opaque=lambda q, key: any(q.endswith(x) for x in stop), ignore=lambda q: q.endswith("CvxInfoPrinter::display"), modsets=True)


def ipm_check(ctx):
    ctx.rule("residuals, statistics, termination tests, right-hand sides, starting point and the bookkeeping of the best iterate have exactly the effects of the reference functions of spec/ipm.cpp")
    ref.check_file(ctx, "ipm.cpp", ["solver/"], mk_summ=ipm_summ, rules=storage_rules)


def kkt_summ(prog):
    stop = ("EqRoutine::ruizEquilibration", "EqRoutine::maxRowsCols", "EqRoutine::equilibrateRowsCols", "EqRoutine::unequilibrateRowsCols", "LinSolver::matrixTransposeTimesVector", "LinSolver::buildProblem",
            "LinSolver::findPermutation", "LinSolver::resizeProblemData", "LinSolver::symbolicFactorization", "SparseCholesky::analyzePattern", "SparseCholesky::factorize", "SparseCholesky::solve",
            "Cone::unpermuteSolution", "Cone::conicNTScaling2", "Vector::initialize")
    return Summ(prog, opaque=lambda q, key: any(q.endswith(x) for x in stop), modsets=True)


def equil_check(ctx):
    ctx.rule("the equilibration routine's operations have exactly the effects of the reference functions of spec/kkt.cpp (undoing = dividing by / multiplying with the very factors applied)")
    ref.check_file(ctx, "kkt.cpp", ["solver/"], mk_summ=kkt_summ, rules=storage_rules, only=lambda o: "EqRoutine::" in o)


def linsys_check(ctx):
    ctx.rule("KKT matrix assembly and update, iterative refinement and LDL' factorisation have exactly the effects of the reference functions of spec/kkt.cpp")
    ref.check_file(ctx, "kkt.cpp", ["solver/"], mk_summ=kkt_summ, rules=storage_rules, only=lambda o: "EqRoutine::" not in o)


def bnb_summ(prog):
    names = ("createBranches", "selectNodeToExplore", "getProblemLowerBound", "selectPartitionVariable", "updateProblemData", "storeSolution", "loadSolution", "updateNodeBounds", "optimilityCheck", "exitcode", "initializeRootNode")
    stop = ("::updateEquilH", "InteriorPointSolver::optimize", "ConicProblem::optimize", "Vector::initialize") + tuple("BnBSolver::" + n for n in names)
    return Summ(prog, opaque=lambda q, key: any(q.endswith(x) for x in stop), modsets=lambda q: "BnBSolver::" in q)


def bnb_check(ctx):
    ctx.rule("both branch-and-bound solvers have exactly the effects of one reference algorithm (spec/bnb.cpp)")
    ref.check_file(ctx, "bnb.cpp", ["solver/"], mk_summ=bnb_summ, rules=storage_rules)


# ------------------------------------------------------------------------------------------------ blocks of variables
def optvar_check(ctx):
    ctx.rule("every function of OptimizationVariable has exactly the effects and results of its reference function in spec/optvar.cpp")

    def want(e):
        # the flag "guess given" is read by nobody; assertions state what callers have to ensure
        if e.kind == "call" and e.value is not None and e.value.op == "c" and e.value.args[0] == "__assert_fail":
            return False
        return ref.public(e) and not (e.kind == "set" and e.target.op == "f" and e.target.args[1] == "guessValueInitialized_")
    ref.check_file(ctx, "optvar.cpp", ["solver/"], want=want, mk_summ=lambda p: Summ(p, modsets=True))
