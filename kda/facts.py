"""Canonical facts from effect summaries, and their comparison against a specification."""
from itertools import permutations
from .nf import *
from . import nf
from .summ import index, is_local, Summ

IMPRECISE = {"unk", "havoc", "cvl", "cvd", "looped", "lam", "goto", "unbound"}
FUZZY = IMPRECISE | {"mu", "final", "first", "while", "dowhile", "until", "after", "append", "exists", "arr", "upd"}


def ops_of(*ts):
    r = set()
    for t in ts:
        if t is None:
            continue
        if isinstance(t, int):
            for a in bsupport(t):
                r |= {x.op for x in subterms(a)}
        elif isinstance(t, tuple):
            r |= ops_of(*t)
        else:
            r |= {x.op for x in subterms(t)}
            r |= {x.args[0] for x in subterms(t) if x.op == "c" and x.args[0] in ("icall", "opApply")}
    return r


def sub_all(e, m):
    tgt, val, g, loops = e
    memo = {}
    s = lambda t: subst(t, m, memo) if t is not None else None
    return s(tgt), s(val), fsubst(g, m, memo), tuple(s(x) for x in loops)


def canon_loops(kind, tgt, val, g, loops):
    """orientation and nesting order of counted loops around a store do not matter"""
    if not loops or kind != "set":
        return tgt, val, g, loops
    plain = all(x.op not in ("while", "dowhile", "until", "post") for x in loops)
    if not plain:
        return tgt, val, g, loops
    for d in range(len(loops)):
        L = mk("L", d)
        sgn = orient(tgt, L)
        if sgn < 0:
            r = sub(sub(loops[d], ONE), L)
            tgt, val, g, rest = sub_all((tgt, val, g, loops), lambda x: r if x is L else None)
            loops = loops[:d + 1] + rest[d + 1:]
    if len(loops) > 1 and len(loops) <= 3:
        best = None
        for p in permutations(range(len(loops))):
            # new position k holds old loop p[k]; a domain may only use variables of loops before it
            ok = True
            for k, o in enumerate(p):
                used = {x.args[0] for x in subterms(loops[o]) if x.op == "L"}
                if not used <= set(p[:k]):
                    ok = False
            if not ok:
                continue
            ren = {mk("L", o): mk("L", k) for k, o in enumerate(p)}
            t2, v2, g2, l2 = sub_all((tgt, val, g, tuple(loops[o] for o in p)), lambda x: ren.get(x))
            key = (tuple(x.dig for x in l2), t2.dig)
            if best is None or key < best[0]:
                best = (key, (t2, v2, g2, l2))
        if best:
            tgt, val, g, loops = best[1]
    return tgt, val, g, loops


def orient(t, L):
    for x in subterms(t):
        if x.op == "i":
            for k in x.args[1]:
                p = k.args[0] if k.op == "sl" else k
                if p is L:
                    return 1
                if p.op == "+":
                    for m, c in p.args[0]:
                        if len(m) == 1 and m[0][0] is L and m[0][1] == 1:
                            return 1 if c > 0 else -1
    return 1


def elements(e):
    """a store to a slice of a vector as stores to its elements"""
    t = e.target
    if t.op != "i" or len(t.args[1]) != 1 or t.args[1][0].op != "sl":
        return [e]
    s, n = t.args[1][0].args
    if n.op == "all" or e.value is None or e.value.op in FUZZY:
        return [e]
    if any(x.op in ("while", "dowhile", "until", "post") for x in e.loops):
        return [e]
    from .summ import Effect
    mkx = lambda k, loops: Effect("set", index(t.args[0], (add(s, k),)), index(e.value, (k,)) if not is_num(e.value) else e.value, e.guard, loops, e.line, e.file, e.fn, e.extra)
    if is_num(n):
        return [mkx(num(k), e.loops) for k in range(int(n.args[0]))] if 0 <= n.args[0] <= 12 else [e]
    return [mkx(mk("L", len(e.loops)), e.loops + (n,))]


class Fact:
    __slots__ = ("kind", "target", "value", "guard", "loops", "effects")

    def __init__(s, kind, target, value, guard, loops, effects):
        s.kind, s.target, s.value, s.guard, s.loops, s.effects = kind, target, value, guard, loops, effects

    def __repr__(s):
        from .summ import Effect
        return repr(Effect(s.kind, s.target, s.value, s.guard, s.loops, 0, "", ""))

    def where(s):
        return s.effects[-1].where() if s.effects else "?"


def covers(big, small):
    """location big overwrites small"""
    if big is small:
        return True
    x = small
    while x.op in ("f", "i"):
        x = x.args[0]
        if x is big:
            return True
    if big.op == "i" and small.op == "i" and big.args[0] is small.args[0] and len(big.args[1]) == len(small.args[1]):
        return all(Summ.covers(a, b) for a, b in zip(big.args[1], small.args[1]))
    return False


def closed(a):
    """no variable bound inside the term"""
    return not any(x.op in ("B", "self") for x in subterms(a))


def split_ite(e, budget=8):
    """an effect whose location (or call) depends on a condition as one effect per case"""
    def find(t):
        if t is None:
            return None
        for x in subterms(t):
            if x.op == "ite" and any(closed(a) for a in bsupport(x.args[0])):
                return x.args[0]
        return None
    c = find(e.target)
    if c is None and e.kind not in ("set", "ret"):
        c = find(e.value)
    if c is None:
        for x in e.loops:
            c = find(x)
            if c is not None:
                break
    if c is None or budget <= 0:
        return [e]
    from .summ import Effect
    out = []
    # decide one atom at a time so that the cases do not depend on the shape of the conditional
    a = sorted((x for x in bsupport(c) if closed(x)), key=lambda x: x.dig)[0]
    for lit in (bvar(a), bnot(bvar(a))):
        g = band(e.guard, lit)
        if bcanon(g) == F:
            continue
        m = lambda t: restrict(t, lit) if t is not None else None
        out += split_ite(Effect(e.kind, m(e.target), m(e.value), g, tuple(m(x) for x in e.loops), e.line, e.file, e.fn, e.extra), budget - 1)
    return out


def inloop(e):
    """the guard given that the loops around run at all"""
    g = e.guard
    for k, d in enumerate(e.loops):
        if d.op in ("while", "dowhile", "until", "post"):
            continue
        for c in (lt(d, ONE), eq(d, ZERO), lt(d, mk("L", k)), lt(mk("L", k), ZERO)):
            for a in bsupport(c):
                if c == bvar(a):
                    g = brestrict(g, a, False)
                elif c == bnot(bvar(a)):
                    g = brestrict(g, a, True)
    return g


def facts(effects, want=None):
    """fold the effect list to facts; want(effect) selects"""
    out = {}
    order = []
    effects = [x for e in effects if want is None or want(e) for x in split_ite(e)]
    for e in effects:
        if e.loops and e.guard != T:
            e.guard = inloop(e)
    for e in (x for e in effects for x in (elements(e) if e.kind == "set" else [e])):
        while e.kind == "set" and e.value is not None and e.value.op == "ite" and (e.value.args[1] is e.target or e.value.args[2] is e.target):
            # keeping the value is no change
            c, a, b = e.value.args
            c, v = (bnot(c), b) if a is e.target else (c, a)
            from .summ import Effect
            e = Effect(e.kind, e.target, v, bcanon(band(e.guard, c)), e.loops, e.line, e.file, e.fn, e.extra)
        if e.kind == "set":
            if e.value is e.target:
                continue
            tgt, val, g, loops = canon_loops("set", e.target, e.value, e.guard, e.loops)
            g = bcanon(g)
            # dead stores below or equal at the same nest
            for k in list(order):
                f = out[k]
                if f.kind == "set" and f.target is not tgt and f.loops == loops and covers(tgt, f.target):
                    ng = band(f.guard, bnot(g))
                    if bcanon(ng) == F:
                        order.remove(k)
                        del out[k]
                elif f.kind == "set" and loops == () and f.loops != () and covers(tgt, f.target) and bsat_implies(f.guard, g) and not contains(f.target, lambda x: x.op == "L" and False):
                    order.remove(k)
                    del out[k]
            k = ("set", loops, tgt)
            if k in out:
                f = out[k]
                v = val if bsat_implies(f.guard, g) else ite(g, val, f.value)
                f.value, f.guard = v, bcanon(bor(f.guard, g))
                f.effects.append(e)
                order.remove(k)
                order.append(k)
            else:
                out[k] = Fact("set", tgt, val, g, loops, [e])
                order.append(k)
        elif e.kind == "ret":
            if e.value is None:
                continue
            k = ("ret", e.loops, mk("ret"))
            if k in out:
                f = out[k]
                f.value = ite(e.guard, e.value, f.value) if e.value is not None and f.value is not None else f.value
                f.guard = bcanon(bor(f.guard, e.guard))
                f.effects.append(e)
            else:
                out[k] = Fact("ret", None, e.value, bcanon(e.guard), e.loops, [e])
                order.append(k)
        else:
            # the same thing done twice: the n-th entry holds the condition under which it happens at least n times
            g, n = e.guard, 0
            while bcanon(g) != F:
                k = (e.kind, e.loops, e.target, e.value) + ((n,) if n else ())
                if k not in out:
                    out[k] = Fact(e.kind, e.target, e.value, bcanon(g), e.loops, [e])
                    order.append(k)
                    break
                f = out[k]
                f.guard, g = bcanon(bor(f.guard, g)), band(f.guard, g)
                f.effects.append(e)
                n += 1
    # a store of the value the location already has is not a change
    return {k: out[k] for k in order}


def lpred(loops):
    return " ".join(f"for {'ijklmnop'[k]}<{show(d)}" for k, d in enumerate(loops))


def sameval(a, b, g):
    """equal under guard g"""
    if a is b:
        return True
    if a is None or b is None:
        return False
    return samecase(a, b, g, [400])


def _splitvar(t):
    """first closed literal of the outermost conditional"""
    for y in subterms(t):
        if y.op == "ite":
            for x in bsupport(y.args[0]):
                if closed(x):
                    return x
    return None


def samecase(a, b, g, budget):
    a, b = restrict(a, g), restrict(b, g)
    if a is b:
        return True
    budget[0] -= 1
    if budget[0] <= 0:
        return False
    x = _splitvar(a)
    if x is None:
        x = _splitvar(b)
    if x is None:
        return False
    v = bvar(x)
    for lit in (v, bnot(v)):
        g2 = bcanon(band(g, lit))
        if g2 != F and not samecase(a, b, g2, budget):
            return False
    return True


def restrict(t, g):
    """simplify conditionals in t that guard g decides (single-literal conjunction only)"""
    def m(x):
        if x.op == "ite":
            if bsat_implies(g, x.args[0]):
                return restrict(x.args[1], g)
            if bsat_implies(g, bnot(x.args[0])):
                return restrict(x.args[2], g)
            c = x.args[0]
            for v in bsupport(c):
                if bsat_implies(g, bvar(v)):
                    c = brestrict(c, v, True)
                elif bsat_implies(g, bnot(bvar(v))):
                    c = brestrict(c, v, False)
            if c != x.args[0]:
                return ite(c, restrict(x.args[1], g), restrict(x.args[2], g))
        if x.op == "fun" and x.args[0] in ("max", "min") and len(x.args[1]) == 2 and closed(x):
            a, b = x.args[1]
            for c, r in ((le(a, b), (b, a)), (le(b, a), (a, b)), (lt(a, b), (b, a)), (lt(b, a), (a, b))):
                if c not in (T, F) and bsat_implies(g, c):
                    return restrict(r[0 if x.args[0] == "max" else 1], g)
        if x.op == "b" and x.args[0] not in (T, F):
            if bsat_implies(g, x.args[0]):
                return boolt(T)
            if bsat_implies(g, bnot(x.args[0])):
                return boolt(F)
        return None
    if g == T:
        return t
    return subst(t, m)


def gsame(f, g):
    return beq(f, g) or samebool(f, g, T, [200])


def grestrict(f, g):
    """f under g, including the conditional values its atoms compare"""
    f = band(f, g)
    if g == T:
        return f

    def at(a):
        if a.op in ("lt0", "le0", "eq0"):
            p = restrict(a.args[0], g)
            return bvar(a) if p is a.args[0] else {"lt0": lt, "le0": le, "eq0": eq}[a.op](p, ZERO)
        return bvar(a)
    return band(bmap(f, at), g)


def samebool(f, g, ctx, budget):
    """the conditions agree in every case of the conditional values inside them"""
    f, g = grestrict(f, ctx), grestrict(g, ctx)
    if beq(f, g):
        return True
    budget[0] -= 1
    if budget[0] <= 0:
        return False
    x = None
    for t in sorted(set(bsupport(f)) | set(bsupport(g))):
        x = _splitvar(t)
        if x is not None and not bsat_implies(ctx, bvar(x)) and not bsat_implies(ctx, bnot(bvar(x))):
            break
        x = None
    if x is None:
        return False
    for lit in (bvar(x), bnot(bvar(x))):
        c2 = bcanon(band(ctx, lit))
        if c2 != F and not samebool(f, g, c2, budget):
            return False
    return True


class Diff:
    def __init__(s, what, key, actual, spec, undecided, msg):
        s.what, s.key, s.actual, s.spec, s.undecided, s.msg = what, key, actual, spec, undecided, msg


def short(x, n=260):
    s = repr(x) if not isinstance(x, str) else x
    return s if len(s) <= n else s[:n] + "…"


def diff(actual, spec, unknown=()):
    """facts -> list of Diff"""
    out = []
    specops = set()
    for f in spec.values():
        specops |= ops_of(f.value, f.guard, f.target, f.loops)
    fuzzy_any = set()
    for f in actual.values():
        fuzzy_any |= (ops_of(f.value, f.guard, f.target, f.loops) & FUZZY) - specops

    def und(f):
        o = ops_of(f.value, f.guard, f.target, f.loops) if f is not None else set()
        return bool((o & FUZZY) - specops)
    for k, s in spec.items():
        a = actual.get(k)
        if a is None:
            out.append(Diff("missing", k, None, s, bool(unknown) or bool(fuzzy_any), "missing: " + short(s)))
            continue
        if not gsame(a.guard, s.guard):
            out.append(Diff("guard", k, a, s, und(a), "happens under [%s], required under [%s]: %s" % (short(fshow(bcanon(a.guard)), 300), short(fshow(bcanon(s.guard)), 300), short(a, 200))))
            continue
        if not sameval(a.value, s.value, s.guard):
            out.append(Diff("value", k, a, s, und(a), "got %s, required %s" % (short(a), short(show(s.value), 400) if s.value is not None else None)))
    for k, a in actual.items():
        if k not in spec:
            out.append(Diff("extra", k, a, None, und(a) or (bool(unknown) and False), "not allowed: " + short(a)))
    return out
