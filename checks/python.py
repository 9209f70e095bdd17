"""Properties of the Python part."""
from kda import pyref, py


def isvec(t):
    """state differences, controls and feedforward terms of the LQR are one-dimensional arrays"""
    return t.op == "c" and t.args[0] in ("diff_x", "np.hstack", "log_quaternion") or t.op == "sym" and t.args[0] == "p2" or t.op == "i" and t.args[0].op == "f" and t.args[0].args[1] in ("kff", "Qdu", "Qdx") and len(t.args[1]) == 1


DYN = ("skew", "quaternion_to_rotation", "exp_quaternion", "log_quaternion", "quaternion_product", "integrate_quaternion", "quaternion_difference", "integrate_veocity", "integrate_angular_velocity",
       "integrate_step", "increment_x", "diff_x", "dynamics_derivatives", "compute_r_cross", "compute_dyn", "analytical_lin_dyn", "descretise_dynamics", "switching_dynamics")


def GETTERS(name):
    """bound const getters of the C++ library (constness is checked by A03)"""
    return name in ("effActivation", "eff", "effPosition", "effOrientation", "effActivationId", "effForce", "effTorque", "effCoP")


def lqr(ctx, dyn):
    ctx.rule("every function of the Python LQR computations has exactly the effects and results of its reference function in spec/lqr.py")
    mks = lambda m: py.PySumm(m, vec1=isvec)
    pyref.check_file(ctx, "lqr.py", special={q: dict(mk_summ=mks) for q in ("CentroidalLqr.cost", "CentroidalLqr.compute_value_function")},
                     only=None if dyn is None else lambda q: (q.split(".")[-1] in DYN) == dyn)
    untouched(ctx, "lqr_gain_manifold.py")


def lqr_check(ctx):
    lqr(ctx, None)


def lqr_dyn_check(ctx):
    lqr(ctx, True)


def lqr_gain_check(ctx):
    lqr(ctx, False)


def minjerk_check(ctx):
    ctx.rule("every function of the minimum-jerk trajectories has exactly the effects and results of its reference function in spec/minjerk.py")
    pyref.check_file(ctx, "minjerk.py")
    untouched(ctx, "min_jerk_traj.py")


def ik_check(ctx):
    ctx.rule("every function of the inverse kinematics has exactly the effects and results of its reference function in spec/ik.py")
    pyref.check_file(ctx, "ik.py")
    untouched(ctx, "inverse_kinematics.py", "second_order_ik.py", "qp.py")
    remembered(ctx, ("momentumopt/python/momentumopt/kinoptpy/inverse_kinematics.py", "momentumopt/python/momentumopt/kinoptpy/second_order_ik.py"))


def remembered(ctx, rels):
    """an argument remembered to tell later whether it changed is remembered by value"""
    ctx.rule("an attribute that a method compares with one of its arguments never holds the caller's own array: whatever is stored in it is a copy")
    import ast, os
    from kda.cxx import REPO
    for rel in rels:
        path = os.path.join(REPO, rel)
        if not os.path.exists(path):
            continue
        ctx.unit(path)
        for cls in [c for c in ast.parse(open(path, encoding="utf-8").read()).body if isinstance(c, ast.ClassDef)]:
            methods = [m for m in cls.body if isinstance(m, ast.FunctionDef)]

            def attr(e):
                return e.attr if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" else None
            memo = set()
            for m in methods:
                ps = set(pyref.params(m))
                for x in ast.walk(m):
                    sides = [x.left] + x.comparators if isinstance(x, ast.Compare) else \
                        x.args if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("equal", "not_equal", "array_equal", "allclose", "isclose") else []
                    if any(isinstance(y, ast.Name) and y.id in ps for y in sides):
                        memo |= {attr(y) for y in sides if attr(y)}
            for m in methods:
                ps = set(pyref.params(m))
                binds = {}
                for x in ast.walk(m):
                    if isinstance(x, ast.Assign):
                        for t in x.targets:
                            for n in ast.walk(t):
                                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                    binds.setdefault(n.id, []).append(x.value if n is t else None)

                def alias(e, d=0):
                    if isinstance(e, ast.Name) and d < 5:
                        if e.id in binds:
                            return e.id not in ps and all(v is not None and alias(v, d + 1) for v in binds[e.id])
                        return e.id in ps
                    if isinstance(e, ast.Attribute) and e.attr in ("T", "flat"):
                        return alias(e.value, d)
                    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("reshape", "view", "ravel", "squeeze", "transpose"):
                        return alias(e.func.value, d)
                    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("asarray", "asanyarray", "asfarray") and e.args:
                        return alias(e.args[0], d)
                    if isinstance(e, ast.Subscript):
                        return isinstance(e.slice, ast.Slice) and alias(e.value, d)
                    return False
                for x in ast.walk(m):
                    if isinstance(x, ast.Assign):
                        pairs = []
                        for t in x.targets:
                            if isinstance(t, ast.Tuple) and isinstance(x.value, ast.Tuple) and len(t.elts) == len(x.value.elts):
                                pairs += zip(t.elts, x.value.elts)
                            else:
                                pairs.append((t, x.value))
                        for t, v in pairs:
                            if attr(t) in memo:
                                ctx.check(not alias(v), "remembered:%s.%s:%s" % (cls.name, m.name, attr(t)), "%s:%d" % (rel, x.lineno),
                                          "%s keeps the caller's array in self.%s, which is later compared with the argument to see whether it changed" % (m.name, attr(t)))


def kinopt(ctx, traj):
    ctx.rule("every function of the kinematics optimiser has exactly the effects and results of its reference function in spec/kinopt.py")
    pyref.check_file(ctx, "kinopt.py", mk_summ=lambda m: py.PySumm(m, pure=GETTERS), only=None if traj is None else lambda q: ("::Momentum" not in q) == traj)


def kinopt_check(ctx):
    kinopt(ctx, None)


def reftraj_check(ctx):
    """minimum-jerk polynomials and the trajectories built from them"""
    minjerk_check(ctx)
    kinopt(ctx, True)


def kinopt_result_check(ctx):
    kinopt(ctx, False)
    untouched(ctx, "momentum_kinematics_optimizer.py")
    views(ctx)


def scan(fn, is_view, start=()):
    """statements of fn that change in place an array that is_view says may be a view of something to be kept"""
    import ast
    bad = []

    def base_local(t):
        while isinstance(t, ast.Subscript):
            t = t.value
        return t.id if isinstance(t, ast.Name) else None

    def bind(t, view, env):
        if isinstance(t, ast.Name):
            (env.add if view else env.discard)(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                bind(x, False, env)
        elif isinstance(t, ast.Subscript):
            n = base_local(t)
            if n in env:
                bad.append(t)

    def stmts(body, env):
        for s in body:
            if isinstance(s, ast.Assign):
                v = is_view(s.value, env)
                for t in s.targets:
                    if isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple) and len(t.elts) == len(s.value.elts):
                        vs = [is_view(x, env) for x in s.value.elts]
                        for x, w in zip(t.elts, vs):
                            bind(x, w, env)
                    else:
                        bind(t, v, env)
            elif isinstance(s, ast.AugAssign):
                n = base_local(s.target)
                if n in env:
                    bad.append(s)
            elif isinstance(s, ast.If):
                a, b = set(env), set(env)
                stmts(s.body, a)
                stmts(s.orelse, b)
                env.clear()
                env |= a | b
            elif isinstance(s, (ast.For, ast.While)):
                for _ in range(3):
                    e = set(env)
                    if isinstance(s, ast.For):
                        bind(s.target, is_view(s.iter, e), e)
                    stmts(s.body, e)
                    env |= e
                stmts(s.orelse, env)
            elif isinstance(s, (ast.With, ast.Try)):
                stmts(s.body, env)
                for h in getattr(s, "handlers", []):
                    stmts(h.body, env)
                stmts(getattr(s, "orelse", []), env)
                stmts(getattr(s, "finalbody", []), env)
            if not isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                for c in ast.walk(s):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("fill", "sort", "resize", "itemset", "put") and base_local(c.func.value) in env:
                        bad.append(c)
    stmts(fn.body, set(start))
    return bad


OUTPUTS = {("CentroidalLqr", "compute_trajectory_from_controls", "x")}     # filled on behalf of the caller


def untouched(ctx, *rels):
    """arrays given to a function are not changed through a view of them"""
    ctx.rule("no statement changes in place a slice or an alias of an array argument (reaching definitions of the local names, through the loops)")
    import ast, os
    from kda.cxx import REPO
    for rel in rels:
        path = os.path.join(REPO, "momentumopt/python/momentumopt/kinoptpy", rel)
        if not os.path.exists(path):
            continue
        ctx.unit(path)
        tree = ast.parse(open(path, encoding="utf-8").read())
        for c in tree.body:
            for fn in (c.body if isinstance(c, ast.ClassDef) else [c]):
                if not isinstance(fn, ast.FunctionDef):
                    continue
                cls = c.name if isinstance(c, ast.ClassDef) else ""
                ps = {p for p in pyref.params(fn) if p != "self" and (cls, fn.name, p) not in OUTPUTS}
                # what is sliced or used as an array is one
                arr = set()
                for x in ast.walk(fn):
                    if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id in ps and any(isinstance(y, ast.Slice) for y in ast.walk(x.slice)):
                        arr.add(x.value.id)
                    elif isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in ps and x.attr in ("dot", "T", "copy", "shape", "transpose", "reshape"):
                        arr.add(x.value.id)

                def is_view(e, env):
                    if isinstance(e, ast.Name):
                        return e.id in env
                    if isinstance(e, ast.Attribute):
                        return e.attr == "T" and is_view(e.value, env)
                    if isinstance(e, ast.Subscript):
                        # one element is a number
                        return any(isinstance(y, ast.Slice) for y in ([e.slice] + (e.slice.elts if isinstance(e.slice, ast.Tuple) else []))) and is_view(e.value, env)
                    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("reshape", "view", "ravel", "squeeze", "transpose"):
                        return is_view(e.func.value, env)
                    return False
                bad = scan(fn, is_view, arr)
                if arr:
                    ctx.check(not bad, "arguments:%s.%s" % (cls, fn.name), "%s:%d" % (rel, bad[0].lineno if bad else fn.lineno),
                              "an array given to the function (or a view of it) is changed in place: the caller's data changes with it")


def views(ctx):
    """the rows of the dynamic plan's references are views: changing one in place changes the plan"""
    ctx.rule("no statement changes in place an array that may be a view of the dynamic plan's references (reaching definitions of the local names, through the loops)")
    import ast, os
    from kda.cxx import REPO
    rel = "momentumopt/python/momentumopt/kinoptpy/momentum_kinematics_optimizer.py"
    path = os.path.join(REPO, rel)
    ctx.unit(path)
    ATTRS = {"com_dyn", "lmom_dyn", "amom_dyn"}

    def is_view(e, env):
        if isinstance(e, ast.Name):
            return e.id in env
        if isinstance(e, ast.Attribute):
            return isinstance(e.value, ast.Name) and e.value.id == "self" and e.attr in ATTRS or e.attr in ("T", "flat") and is_view(e.value, env)
        if isinstance(e, ast.Subscript):
            # one element along every axis is a number, a list of indices makes a copy
            return not isinstance(e.slice, ast.List) and is_view(e.value, env)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("reshape", "view", "ravel", "squeeze", "transpose"):
            return is_view(e.func.value, env)
        if isinstance(e, ast.IfExp):
            return is_view(e.body, env) or is_view(e.orelse, env)
        return False

    for c in ast.parse(open(path).read()).body:
        if not isinstance(c, ast.ClassDef):
            continue
        for fn in c.body:
            if isinstance(fn, ast.FunctionDef) and any(isinstance(x, ast.Attribute) and x.attr in ATTRS and isinstance(x.ctx, ast.Load) for x in ast.walk(fn)):
                bad = scan(fn, is_view)
                ctx.functions.add("%s.%s" % (c.name, fn.name))
                ctx.check(not bad, "%s.%s keeps the dynamic plan's references" % (c.name, fn.name), "%s:%d" % (rel, bad[0].lineno if bad else fn.lineno),
                          "an array that may be a view of self.com_dyn, self.lmom_dyn or self.amom_dyn is changed in place")
