"""The iterative LQR solver in C++ (D03...)"""
from kda import cxx, ref
from kda.nf import *
from kda.summ import Summ, fieldof
from checks.dynopt import model_summ, no_exception, seen

STOP = ("OcpBase::internal_dynamics", "StateSequence::resize", "ControlSequence::resize", "findConstrainedControls", "ForwardPass::applyController", "BackwardPass::optimizeController", "FiniteDifferences::computeDerivatives",
        "controlSequenceGradientNorm", "LqrInfoPrinter::initialize", "ForwardPass::initialize", "BackwardPass::initialize", "FiniteDifferences::initialize", "SolverLqr::storeSolution", "solver::Model::addVar",
        "Model::addLinConstr", "Model::setObjective", "Model::optimize", "Model::clean", "computeDynamicsFirstDerivatives", "computeDynamicsSecondDerivatives", "computeObjectiveFirstDerivatives", "computeObjectiveSecondDerivatives")


def model(what):
    """the user's dynamics and cost are functions of the state vector, the feedforward control and the time"""
    def f(self, e, qs):
        x, u = self.val(e[3][0]), self.val(e[3][1])
        r = mk("c", what, mk("none"), (fieldof(x, "state_"), fieldof(u, "feedforward_")) + tuple(self.val(a) for a in e[3][2:]))
        MAT.add(r) if what == "dynamics" else None
        return r if what == "objective" else mk("struct", (("state_", r),))
    return f


def lqr_summ(prog, stop=STOP):
    return Summ(prog, opaque=lambda q, key: any(q.endswith(x) for x in stop) or q.startswith("solver::"), ignore=lambda q: q.endswith("LqrInfoPrinter::display"), modsets=True, unroll=0,
                handlers={"solverlqr::OcpBase::dynamics": model("dynamics"), "solverlqr::OcpBase::objective": model("objective")})


def run(ctx, only, stop=STOP, **kw):
    ref.check_file(ctx, "olqr.cpp", ["solver_lqr/", "solver/"], mk_summ=lambda p: lqr_summ(p, stop), only=only, **kw)


def rollout_check(ctx):
    ctx.rule("the arithmetic of states and control sequences, one integration step and a rollout have exactly the effects of the reference functions of spec/olqr.cpp")
    run(ctx, lambda q: not any(x in q for x in ("BackwardPass", "Finite", "SolverLqr")))


def backward_check(ctx):
    ctx.rule("the backward recursion and the box-constrained minimiser have exactly the effects of the reference functions of spec/olqr.cpp")
    run(ctx, lambda q: "BackwardPass" in q and "Constrained" not in q)
    ref.check_file(ctx, "olqr.cpp", ["solver_lqr/", "solver/"], mk_summ=model_summ, want=seen, only=lambda q: "Constrained" in q)


def derivative_check(ctx):
    ctx.rule("the finite differences, as terms over the user's dynamics and cost applied to perturbed states and controls, are stored at the entries where spec/olqr.cpp stores them")
    run(ctx, lambda q: "FiniteDifferences" in q, [x for x in STOP if "internal_dynamics" not in x])
    restored_check(ctx)


def plain(x):
    """an expression without its line numbers"""
    if isinstance(x, list):
        return tuple(plain(y) if not (type(y) is int and x[0] != "var") else None for y in x)
    return x


def restored_check(ctx):
    """each pass of a loop over components leaves the state and control it perturbs as it found them"""
    ctx.rule("in the loops of the finite differences the increments of a local state or control by one and the same step add up to zero in each pass, unless it is assigned anew")
    prog = cxx.load("solver_lqr/")

    def walk(x, f):
        if isinstance(x, (list, tuple)):
            f(x)
            for y in x:
                walk(y, f)

    def roots(x):
        r = set()
        walk(x, lambda y: r.add(y[2]) if len(y) > 3 and y[0] == "var" and y[3] == "local" and str(y[4]).startswith("o:") else None)
        return r

    def direct(b):
        for st in b if isinstance(b, list) else ():
            if isinstance(st, list) and st and st[0] == "block":
                yield from direct(st[1])
            else:
                yield st
    for k, f in sorted(prog.fns.items()):
        if not f["qual"].startswith("solverlqr::FiniteDifferences::") or not f.get("body"):
            continue

        def loop(x):
            if not x or x[0] != "for" or len(x) < 5 or not isinstance(x[4], list):
                return
            sums, deep, fresh = {}, {}, set()

            def all_(y):
                if len(y) > 3 and y[0] == "asg":
                    for r in roots(y[2]):
                        if y[1] in ("+=", "-="):
                            deep[r] = deep.get(r, 0) + 1
                        else:
                            fresh.add(r)
                elif len(y) > 3 and y[0] == "call" and str(y[1]).endswith("operator="):
                    fresh.update(roots(y[2]))
                elif len(y) > 3 and y[0] == "decl":
                    fresh.add(y[2])
            walk(x[4], all_)
            inner = {}
            for st in direct(x[4]):
                if isinstance(st, list) and st and st[0] == "expr" and st[1] and st[1][0] == "asg" and st[1][1] in ("+=", "-="):
                    for r in roots(st[1][2]):
                        d = sums.setdefault((r, plain(st[1][2])), {})
                        rhs = plain(st[1][3])
                        d[rhs] = d.get(rhs, 0) + (1 if st[1][1] == "+=" else -1)
                        inner[r] = inner.get(r, 0) + 1
                elif isinstance(st, list) and st and st[0] == "for":
                    # judged by itself; its increments cancel when it passes
                    walk(st, lambda y: [inner.__setitem__(r, inner.get(r, 0) + 1) for r in roots(y[2])] if len(y) > 3 and y[0] == "asg" and y[1] in ("+=", "-=") else None)
            for (r, l), d in sums.items():
                if r in fresh or inner.get(r) != deep.get(r) or len(d) != 1:
                    continue
                (n,) = d.values()
                ctx.check(n == 0, "restored:%s:%s" % (f["qual"], r),
                          "%s:%d" % (f["file"], f["line"]), "a pass of the loop changes the perturbed state or control by %+d steps: the next component is differentiated at another point" % n)
        walk(f["body"], loop)


def iteration_check(ctx):
    ctx.rule("the iteration's loops, guards, early exits and effects are those of spec/olqr.cpp, with the passes opaque")
    run(ctx, lambda q: "SolverLqr::" in q, rules=no_exception)


FB = ("OcpBase::initialize", "SolverLqr::initialize", "SolverLqr::optimize", "DynamicsFeedback::setStatesAndControls")


def feedback_check(ctx):
    ctx.rule("the momentum feedback's states, controls, costs, dynamics and gains are those of spec/dynfb.cpp")
    ref.check_file(ctx, "dynfb.cpp", ["momentumopt/", "solver_lqr/"], rules=no_exception,
                   mk_summ=lambda p: Summ(p, opaque=lambda q, key: any(q.endswith(x) for x in FB), unroll=0))
