"""Comparison of code with reference functions.

A reference file spec/<name>.cpp holds functions preceded by a line

    //@ <qualified name>[/<number of parameters>] [const|mut] [~<part of the signature>] [as <suffix>]

The reference takes the object as first parameter (`self`, omitted for static and free functions) and then the
parameters of the code, by position.  Both are summarised; the summaries (locations written, values, path conditions,
loops, results, exceptions, calls) have to agree.
"""
import os, re
from . import cxx
from .cxx import AnalysisBroken
from .nf import *
from .summ import Summ, THIS, is_local, Giveup, root, Effect, fieldof, SCAL
from .facts import facts, diff, FUZZY, ops_of


def directives(path):
    """[(line of the reference function, qual, nparams, const)]"""
    out = []
    for i, ln in enumerate(open(path), 1):
        m = re.match(r"\s*//@\s+(\S+?)(?:/(\d+))?(?:\s+(const|mut))?(?:\s+~(\S+))?(?:\s+as\s+(\S+))?\s*$", ln)
        if m:
            out.append((i, m.group(1), int(m.group(2)) if m.group(2) else None, {"const": True, "mut": False, None: None}[m.group(3)], m.group(4).replace("%", " ") if m.group(4) else None, m.group(5)))
    return out


def public(e):
    """effects a caller can see"""
    if e.kind == "set":
        return not is_local(e.target)
    return True


def returned_local(body):
    """declaration id of the one local object the function returns everywhere"""
    ids = set()

    def walk(x):
        if isinstance(x, list):
            if len(x) == 3 and x[0] == "ret" and isinstance(x[1], list):
                e = x[1]
                while isinstance(e, list) and e[0] == "ctor" and len(e[2]) == 1:
                    e = e[2][0]
                ids.add(e[2] if isinstance(e, list) and e and e[0] == "var" and e[3] == "local" else None)
                return
            for y in x:
                walk(y)
    walk(body)
    return ids.pop() if len(ids) == 1 else None


def run_code(prog, fn, mk_summ, selfname=None, nrvo=False, scalars=False):
    S = mk_summ(prog)
    if nrvo:
        S.nrvo = returned_local(fn["body"])
    ps = fn["params"]
    args = {}
    free = selfname is not None
    names = ps[1:] if free else ps
    if free:
        args[ps[0][0]] = THIS
    for i, p in enumerate(names):
        t = args[p[0]] = mk("sym", "p%d" % i)
        if scalars:
            MAT.discard(t)          # the symbols are shared by all functions
            SCAL.discard(t)
            if p[2] == "f" and "*" not in (p[4] or ""):
                SCAL.add(t)
    fx = S.run(fn, args) if free else S.run(fn, args)
    return S, fx


def rewrite(e, rules):
    memo = {}
    s = lambda t: subst(t, rules, memo) if t is not None else None
    return Effect(e.kind, s(e.target), s(e.value), fsubst(e.guard, rules, memo), tuple(s(x) for x in e.loops), e.line, e.file, e.fn, e.extra)


def compare(ctx, prog, fn, sfn, oid, mk_summ=None, want=public, member=True, extra_ok=None, rules=None, nrvo=False, scalars=False):
    """records obligations of fn against sfn"""
    mk_summ = mk_summ or (lambda p: Summ(p))
    where = "%s:%d" % (fn["file"].replace(cxx.REPO + "/", ""), fn["line"])
    try:
        A, fa = run_code(prog, fn, mk_summ, nrvo=nrvo, scalars=scalars)
        B, fb = run_code(prog, sfn, mk_summ, "self" if member else None, nrvo=nrvo, scalars=scalars)
    except Giveup as e:
        ctx.undecided(oid, where, "gave up: %s" % e)
        return None
    ctx.fn(fn["key"])
    if B.unknown:
        raise AnalysisBroken("reference for %s not summarised: %s" % (oid, B.unknown[:3]))
    return compare_fx(ctx, oid, where, fn["key"], A, fa, B, fb, want, extra_ok, rules)


def compare_fx(ctx, oid, where, name, A, fa, B, fb, want=public, extra_ok=None, rules=None):
    ra, rb = A.retval, B.retval
    base = rules

    if base:
        fa, fb = [rewrite(e, base) for e in fa], [rewrite(e, base) for e in fb]
        ra, rb = (subst(x, base) if x is not None else None for x in (ra, rb))
    # the default construction of a class-typed member is no effect of its own
    ctor = re.search(r"(\w+)::\1\(", name) is not None
    dflt = lambda e: e.value is not None and (e.value.op == "undef" and e.value.args and re.match(r"(Eigen|std|solver|momentumopt)::", str(e.value.args[0])) is not None or
                                              ctor and (e.value.op == "list" and not e.value.args[0] or e.value.op == "ctor" and str(e.value.args[0]).startswith("std::") and len(e.value.args) == 2 and not e.value.args[1]))
    fa, fb = [e for e in fa if not dflt(e)], [e for e in fb if not dflt(e)]
    rules = lambda t: mk("l", "$") if t.op == "l" else None
    if True:
        fa, fb = [rewrite(e, rules) for e in fa], [rewrite(e, rules) for e in fb]
        ra, rb = (subst(x, rules) if x is not None else None for x in (ra, rb))

    def judge(fa, fb, ra, rb):
        ca, cb = facts(fa, want), facts(fb, want)
        ds = diff(ca, cb, A.unknown)
        if ra is not rb and rb is not None and not any(k[0] == "ret" for k in list(ca) + list(cb)):
            fz = bool((ops_of(ra) if ra is not None else set()) & FUZZY - ops_of(rb))
            from .facts import Diff
            ds.append(Diff("value", ("ret",), None, None, fz or bool(A.unknown), "returns %s, required %s" % (show(ra)[:500] if ra is not None else None, show(rb)[:500])))
        return ds
    ds = judge(fa, fb, ra, rb)
    if ds:
        # conditional values in canonical form: the order of the tests does not matter
        memo = {}
        cc = lambda t: canon_cases(t, memo) if t is not None else None

        def at(a):
            if a.op in ("lt0", "le0", "eq0"):
                p = cc(a.args[0])
                return bvar(a) if p is a.args[0] else {"lt0": lt, "le0": le, "eq0": eq}[a.op](p, ZERO)
            return bvar(a)
        fe = lambda e: Effect(e.kind, cc(e.target), cc(e.value), bmap(e.guard, at), tuple(cc(x) for x in e.loops), e.line, e.file, e.fn, e.extra)
        d2 = judge([fe(e) for e in fa], [fe(e) for e in fb], cc(ra), cc(rb))
        if len(d2) < len(ds):
            ds = d2
    ctx.count("compared effects", len(facts(fb, want)) + (1 if rb is not None else 0))
    bad = False
    for d in ds:
        if d.what == "extra" and extra_ok and extra_ok(d):
            continue
        at = d.actual.where() if d.actual is not None and hasattr(d.actual, "where") else where
        if d.undecided:
            ctx.undecided(oid, at, d.what + " " + d.msg)
        else:
            ctx.bad(oid, at.replace(cxx.REPO + "/", ""), "%s: %s" % (name, d.msg))
        bad = True
    if not bad:
        ctx.ok(oid, "", where)
    return ds


def check_file(ctx, name, patterns, mk_summ=None, only=None, special=None, **kw):
    """special: obligation prefix -> further compare() options"""
    path = os.path.join(cxx.VERIF, "spec", name)
    ds = directives(path)
    try:
        prog = cxx.load(*patterns, spec=[name])
    except cxx.SpecMismatch as e:
        for line, qual, npar, const, sig, suffix in ds:
            oid = qual + ("/%d" % npar if npar is not None else "") + ((" " + suffix) if suffix else "")
            if not only or only(oid):
                ctx.undecided(oid, name, str(e))
        return None
    ctx.unit(*[u for u in prog.units])
    sfns = sorted((f for f in prog.fns.values() if f["file"] == path), key=lambda f: f["line"])
    for line, qual, npar, const, sig, suffix in ds:
        s = next((f for f in sfns if f["line"] > line), None)
        if s is None:
            raise AnalysisBroken("no reference function after line %d of %s" % (line, name))
        s["isspec"] = True
        oid = qual + ("/%d" % npar if npar is not None else "") + ((" " + suffix) if suffix else "")
        if only and not only(oid):
            continue
        c = [f for f in prog.byqual.get(qual, []) if (npar is None or len(f["params"]) == npar) and (const is None or bool(f["const"]) == const) and (sig is None or sig in f["key"]) and not f.get("isspec")]
        if not c:
            ctx.undecided(oid, name, "anchor not found in the current tree")
            continue
        member = qual.rsplit("::", 1)[0] in prog.classes and not c[0].get("static")
        for f in c:
            k2 = dict(kw)
            k2.update((special or {}).get(oid, {}))
            compare(ctx, prog, f, s, oid, k2.pop("mk_summ", mk_summ), member=member, **k2)
    return prog
