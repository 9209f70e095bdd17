"""Comparison of Python code with reference functions.

A reference file spec/<name>.py holds functions preceded by a line

    #@ <path of the module>::[<class>.]<function> [option ...]

The reference has the parameters of the code, by position (`self` first for methods).  Functions the file gives a
reference for are opaque at their call sites (a call is compared as a call); other functions of the module are inlined.
"""
import ast, os, re
from . import cxx, py
from .cxx import AnalysisBroken
from .nf import *
from .summ import THIS, is_local, Giveup
from .ref import compare_fx, public


def directives(path):
    out = []
    for i, ln in enumerate(open(path), 1):
        m = re.match(r"\s*#@\s+(\S+?)::(\S+)((?:\s+\S+)*)\s*$", ln)
        if m:
            out.append((i, m.group(1), m.group(2), m.group(3).split()))
    return out


def params(node):
    return [a.arg for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]


def defaults(mod, node):
    """default values that callers rely on"""
    ps = [a.arg for a in node.args.posonlyargs + node.args.args]
    return {ps.index(p): ast.dump(d) for p, d in zip(ps[len(ps) - len(node.args.defaults):], node.args.defaults)}


def summarise(mod, fn, cls, mk_summ):
    S = mk_summ(mod)
    ps = params(fn.node)
    if cls and ps and ps[0] == "self":
        ps = ps[1:]
    args = {p: mk("sym", "p%d" % i) for i, p in enumerate(ps)}
    fx = S.run(fn, args)
    return S, fx


def check_file(ctx, name, mk_summ=None, only=None, special=None, opaque=(), want=public, **kw):
    path = os.path.join(cxx.VERIF, "spec", name)
    spec = ast.parse(open(path).read())
    fns = sorted((n for n in ast.walk(spec) if isinstance(n, ast.FunctionDef)), key=lambda n: n.lineno)
    ds = directives(path)
    anchors = {q.split(".")[-1] for _, _, q, _ in ds} | set(opaque)
    mods = {}
    for line, rel, qual, opts in ds:
        if only and not only(rel + "::" + qual):
            continue
        if getattr(ctx, "only_fn", qual) != qual:
            continue
        if rel not in mods:
            mods[rel] = py.load(rel)
            ctx.unit(rel)
        mod = mods[rel]
        s = next((f for f in fns if f.lineno > line), None)
        if s is None:
            raise AnalysisBroken("no reference function after line %d of %s" % (line, name))
        oid = rel.rsplit("/", 1)[-1] + "::" + qual
        try:
            fn = py.find(mod, qual)
        except AnalysisBroken as e:
            ctx.undecided(oid, rel, str(e))
            continue
        where = "%s:%d" % (rel, fn.node.lineno)
        sp = (special or {}).get(qual, {})
        base = sp.get("mk_summ") or mk_summ or (lambda m: py.PySumm(m))

        def build(m):
            S = base(m)
            o = S.opaque
            me = qual.split(".")[-1]
            S.opaque = lambda q, n: n in anchors or o(q, n)
            return S
        cls = fn.cls
        if len(params(fn.node)) != len(params(s)):
            if len(params(fn.node)) - len(fn.node.args.defaults) > len(params(s)):
                ctx.undecided(oid, where, "takes %d parameters, the reference takes %d" % (len(params(fn.node)), len(params(s))))
                continue
        try:
            A, fa = summarise(mod, fn, cls, build)
            B, fb = summarise(mod, py.PyFn(mod, s, cls), cls, build)
        except Giveup as e:
            ctx.undecided(oid, where, "gave up: %s" % e)
            continue
        ctx.fn("%s::%s" % (rel, qual))
        if B.unknown:
            raise AnalysisBroken("reference for %s not summarised: %s" % (oid, B.unknown[:3]))
        da, db = defaults(mod, fn.node), defaults(mod, s)
        for k in db:
            if k in da and da[k] != db[k]:
                ctx.bad(oid + " default", where, "%s: default of parameter %s is %s, required %s" % (qual, params(fn.node)[k], da[k], db[k]))
        compare_fx(ctx, oid, where, qual, A, fa, B, fb, want, sp.get("extra_ok"), sp.get("rules", kw.get("rules")))
    return mods
